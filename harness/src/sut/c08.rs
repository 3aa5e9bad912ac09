//! C08: envelopes.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

/// per axis either exact arithmetic (scale and offset) or an arbitrary strictly increasing table
#[derive(Clone, Debug)]
enum Ax { Lin(i64, i32), Ord(OrdEmb) }
impl Ax {
    fn f(&self, i: i64) -> f64 { match self { Ax::Lin(t, k) => (i + t) as f64 * p2(*k), Ax::Ord(o) => o.f(i) } }
    fn inv(&self, x: f64) -> J {
        match self {
            Ax::Lin(t, k) => { let u = x / p2(*k); if u.is_finite() && u.fract() == 0.0 && u.abs() < 1e15 { J::I(u as i64 - t) } else { J::I(BAD) } }
            Ax::Ord(o) => J::I(o.inv(x).unwrap_or(BAD)),
        }
    }
    fn lin(&self) -> bool { matches!(self, Ax::Lin(..)) }
}

pub struct C08 { axes: Vec<(Ax, Ax)>, x: Ax, y: Ax, e: Envelope, r: Rng, off: bool }

impl C08 {
    pub fn new(seed: u64, thorough: bool) -> C08 {
        let k = if thorough { 4 } else { 1 };
        let mut r = Rng::new(seed);
        let mut axes = vec![(Ax::Lin(0, 0), Ax::Lin(0, 0))];
        for _ in 0..10 * k {
            let t = *r.pick(&[1i64, 40, 100000, 1 << 44]);
            let s = *r.pick(&[0, -1, 10, -40, 200]);
            axes.push((Ax::Lin(r.range(-t, t), s), Ax::Lin(r.range(-t, t), s)));
        }
        // squares and areas leave the range of f64, lengths do not
        for s in [600, -600, 1000, -1000] { axes.push((Ax::Lin(r.range(-40, 40), s), Ax::Lin(r.range(-40, 40), s))); }
        let o = orders(seed, 20 * k, -60, 60);
        for i in 0..10 * k { axes.push((Ax::Ord(o[2 * i].clone()), Ax::Ord(o[2 * i + 1].clone()))); }
        C08 { x: axes[0].0.clone(), y: axes[0].1.clone(), axes, e: Envelope::default(), r, off: false }
    }
    fn p(&self, a: &J) -> Coordinate { Coordinate::new_xy(self.x.f(a.a()[0].i()), self.y.f(a.a()[1].i())) }
    /// a rectangle by one of the equivalent routes
    fn env(&mut self, a: &J) -> Envelope {
        let v = a.ints();
        if v.is_empty() {
            let mut e = Envelope::default();
            if self.r.chance(1, 2) { e = Envelope::new_xy(1.0, 2.0, 3.0, 4.0); e.set_to_null(); }
            return e;
        }
        let (x1, x2, y1, y2) = (self.x.f(v[0]), self.x.f(v[1]), self.y.f(v[2]), self.y.f(v[3]));
        let c = |x, y| Coordinate::new_xy(x, y);
        match self.r.below(9) {
            8 => Envelope::new_envelope(&Envelope::new_xy(x1, x2, y1, y2)),
            0 => Envelope::new_xy(x1, x2, y1, y2),
            1 => Envelope::new_xy(x2, x1, y2, y1),
            2 => Envelope::new_xy(x2, x1, y1, y2),
            3 => Envelope::new_coordinates(&c(x1, y2), &c(x2, y1)),
            4 => Envelope::new_coordinates(&c(x2, y2), &c(x1, y1)),
            5 => { let mut e = Envelope::new_coordinate(&c(x2, y1)); e.expand_to_include_xy(x1, y2); e }
            6 => { let mut e = Envelope::default(); e.expand_to_include_coordinate(&c(x1, y1)); e.expand_to_include_coordinate(&c(x2, y2)); e }
            _ => { let mut e = Envelope::new_xy(5.0, 6.0, 5.0, 6.0); e.init(&Envelope::new_xy(x1, x2, y1, y2)); e.copy() }
        }
    }
    fn obs(&self, e: &Envelope) -> J {
        if e.is_null() {
            let z = e.get_width() == 0.0 && e.get_height() == 0.0 && e.get_area() == 0.0 && e.get_diameter() == 0.0
                && e.min_extent() == 0.0 && e.max_extent() == 0.0 && e.centre().is_none();
            return if z { ja!["null"] } else { J::I(BAD) };
        }
        let (x1, x2, y1, y2) = (e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y());
        let mut v = vec![self.x.inv(x1), self.x.inv(x2), self.y.inv(y1), self.y.inv(y2)];
        let (w, h) = (x2 - x1, y2 - y1);
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
        let c = e.centre().unwrap();
        let ok = e.get_width() == w && e.get_height() == h && (near(e.get_area(), w * h) || (w * h).is_infinite()) && near(e.get_diameter(), f64::hypot(w, h))
            && e.min_extent() == w.min(h) && e.max_extent() == w.max(h)
            && e.covers_coordinate(&c);
        if !ok { return J::I(BAD); }
        for (ax, c) in [(&self.x, c.x), (&self.y, c.y)] {
            v.push(match ax { Ax::Lin(t, k) => int(c / p2(*k) * 2.0 - 2.0 * *t as f64), _ => J::s("skip") });
        }
        J::A(v)
    }
}

impl Sut for C08 {
    fn variants(&self) -> usize { self.axes.len() }
    fn begin(&mut self, v: usize) { let a = self.axes[v].clone(); self.x = a.0; self.y = a.1; self.e = Envelope::default(); self.off = false; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.axes[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "mut" => {
                if self.off { return J::s("skip"); }
                let m = a[0].str().to_string();
                let scale = |ax: &Ax, d: &J| ax.f(d.i()) - ax.f(0);
                match m.as_str() {
                    "init" => { let e = self.env(&a[1]); if self.r.chance(1, 2) { self.e.init(&e); } else { self.e = e; } }
                    "null" => self.e.set_to_null(),
                    "pt" => { let p = self.p(&a[1]); if self.r.chance(1, 2) { self.e.expand_to_include_coordinate(&p); } else { self.e.expand_to_include_xy(p.x, p.y); } }
                    "env" => { let e = self.env(&a[1]); self.e.expand_to_include_envelope(&e); }
                    "cut" => { let e = self.env(&a[1]); self.e = self.e.intersection_envelope(&e); }
                    _ => {
                        // arithmetic has no counterpart in an arbitrary order embedding
                        if !self.x.lin() { self.off = true; return J::s("skip"); }
                        match m.as_str() {
                            "by" => self.e.expand_by(scale(&self.x, &a[1])),
                            "byxy" => self.e.expand_by_delta_xy(scale(&self.x, &a[1]), scale(&self.y, &a[2])),
                            "move" => self.e.translate(scale(&self.x, &a[1]), scale(&self.y, &a[2])),
                            x => panic!("harness: mut {}", x),
                        }
                    }
                }
                self.obs(&self.e)
            }
            "pair" => {
                let (e, f) = (self.env(&a[0]), self.env(&a[1]));
                let m = e.intersects_envelope(&f);
                if e.disjoint_envelope(&f) == m || e.overlaps_envelope(&f) != m { return J::I(BAD); }
                if !f.is_null() {
                    let (p, q) = (Coordinate::new_xy(f.get_min_x(), f.get_max_y()), Coordinate::new_xy(f.get_max_x(), f.get_min_y()));
                    if e.intersects_coordinate_ab(&p, &q) != m || e.intersects_coordinate_ab(&q, &p) != m { return J::I(BAD); }
                }
                let c = e.covers_envelope(&f);
                if e.contains_envelope(&f) != c { return J::I(BAD); }
                let mut u = e;
                u.expand_to_include_envelope(&f);
                let d = if let Ax::Lin(_, k) = self.x { if e.is_null() || f.is_null() { J::s("skip") } else { J::F(e.distance_envelope(&f) / p2(k)) } } else { J::s("skip") };
                J::A(vec![bit(m), bit(c), bit(e.contains_properly(&f)), bit(e.equals(&f)), J::from(e.compare_to_envelope(&f).signum()),
                    self.obs(&e.intersection_envelope(&f)), self.obs(&u), d])
            }
            "has" => {
                let e = self.env(&a[0]);
                J::A(a[1].a().iter().map(|q| {
                    let p = self.p(q);
                    let b = e.covers_coordinate(&p);
                    let all = [e.covers_xy(p.x, p.y), e.contains_coordinate(&p), e.contains_xy(p.x, p.y), e.intersects_coordinate(&p),
                        e.intersects_xy(p.x, p.y), e.overlaps_coordinate(&p), e.overlaps_xy(p.x, p.y)];
                    if all.iter().all(|x| *x == b) { bit(b) } else { J::I(BAD) }
                }).collect())
            }
            "i3" => bit(Envelope::intersects_3(&self.p(&a[0]), &self.p(&a[1]), &self.p(&a[2]))),
            "i4" => bit(Envelope::intersects_4(&self.p(&a[0]), &self.p(&a[1]), &self.p(&a[2]), &self.p(&a[3]))),
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 4, 9]);
        let rect = |r: &mut Rng| -> J {
            if r.chance(1, 8) { return ja![]; }
            let (a, b, c, d) = (r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m));
            ja![a.min(b), a.max(b), c.min(d), c.max(d)]
        };
        match r.below(6) {
            0 => vec![("pair".into(), ja![rect(r), rect(r)])],
            1 => vec![("has".into(), ja![rect(r), J::A((0..9).map(|_| rpt(r, m)).collect())])],
            2 => vec![("i3".into(), ja![rpt(r, m), rpt(r, m), rpt(r, m)])],
            3 => vec![("i4".into(), ja![rpt(r, m), rpt(r, m), rpt(r, m), rpt(r, m)])],
            _ => (0..size(r, 3, 10).min(120)).map(|_| ("mut".to_string(), match r.below(10) {
                0 => J::A(vec![J::s("init"), rect(r)]),
                1 => if r.chance(1, 3) { ja!["null"] } else { J::A(vec![J::s("cut"), rect(r)]) },
                2 | 3 | 4 => J::A(vec![J::s("pt"), rpt(r, m)]),
                5 | 6 => J::A(vec![J::s("env"), rect(r)]),
                7 => ja!["by", r.range(-2, 2)],
                8 => ja!["byxy", r.range(-2, 2), r.range(-2, 2)],
                _ => ja!["move", r.range(-3, 3), r.range(-3, 3)],
            })).collect(),
        }
    }
}
