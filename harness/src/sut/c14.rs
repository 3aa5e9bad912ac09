//! C14: orderings and equalities.
use super::c12::{layout, axis, Ords, NAN};
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateSequenceComparator as CSC, CoordinateArraySequence as Arr, *};

pub struct C14 { ords: Vec<Ords>, o: Ords, v: usize, r: Rng }
impl C14 {
    pub fn new(seed: u64, thorough: bool) -> C14 {
        let mut ords = Ords::sets(seed ^ 14, if thorough { 16 } else { 4 }, -60, 60);
        for o in ords.iter_mut() { o.0[3] = o.0[2].clone(); }
        C14 { o: ords[0].clone(), ords, v: 0, r: Rng::new(seed) }
    }
    fn oc(&self, c: &J) -> Coordinate { let v = c.ints(); Coordinate::new_xyz(self.o.f(0, v[0]), self.o.f(1, v[1]), if v.len() > 2 { self.o.f(2, v[2]) } else { f64::NAN }) }
    fn ocs(&self, t: &J) -> Vec<Coordinate> { t.a().iter().map(|c| self.oc(c)).collect() }
    /// plain coordinates on a scaled integer grid: the unit is a power of two
    fn unit(&self) -> f64 { [1.0, 8.0, 0.25, 1048576.0, 1.0 / 1024.0][self.v % 5] }
    fn lc(&self, c: &J) -> Coordinate {
        let u = self.unit();
        let (dx, dy) = [(0., 0.), (1000., -7.), (-65536., 65536.)][self.v % 3];
        let v = c.ints();
        let f = |k: usize, d: f64| if v[k] == NAN { f64::NAN } else { (v[k] as f64 + d) * u };
        Coordinate::new_xyz(f(0, dx), f(1, dy), if v.len() > 2 { f(2, 0.) } else { f64::NAN })
    }
    fn lcs(&self, t: &J) -> Vec<Coordinate> { t.a().iter().map(|c| self.lc(c)).collect() }
    fn seq(&self, v: &J) -> Arr {
        let ly = v.a()[0].str();
        let (d, m) = layout(ly);
        let t = v.a()[1].a();
        let mut s = Arr::new_with_size_dimension_measures(t.len(), d, m);
        for (i, c) in t.iter().enumerate() { for k in 0..d { s.set_ordinate(i, k, self.o.f(axis(ly, k as usize), c.a()[k as usize].i())); } }
        s
    }
    fn env(&self, e: &J) -> Envelope {
        if e.a().is_empty() { return Envelope::default(); }
        let v = e.ints();
        Envelope::new_xy(self.o.f(0, v[0]), self.o.f(0, v[2]), self.o.f(1, v[1]), self.o.f(1, v[3]))
    }
    fn model(&mut self, m: &J) -> PrecisionModel {
        match m.a()[0].str() {
            "F" => PrecisionModel::default(),
            "S" => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
            _ => {
                let (n, d) = (m.a()[1].f(), m.a()[2].f());
                if self.r.chance(1, 2) && n != d { PrecisionModel::new_with_scale(-d / n) } else { PrecisionModel::new_with_scale(n / d) }
            }
        }
    }
    fn poly(&self, p: &J, lin: bool) -> Polygon {
        let r: Vec<LinearRing> = p.a().iter().map(|t| LinearRing::new_with_coordinates(&if lin { self.lcs(t) } else { self.ocs(t) })).collect();
        Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec())
    }
    fn line(&self, v: &[Coordinate]) -> LineString { LineString::new_from_coordinate_sequence(Arr::new_with_coordinates(&v.to_vec())) }
}
fn both(a: Vec<i32>) -> J { let s: Vec<i32> = a.iter().map(|x| x.signum()).collect(); if s.iter().all(|x| *x == s[0]) { J::from(s[0]) } else { J::from(s.iter().map(|x| *x as i64).chain([BAD]).collect::<Vec<i64>>()) } }
fn agree(a: Vec<bool>) -> J { if a.iter().all(|x| *x == a[0]) { bit(a[0]) } else { J::I(BAD) } }

impl Sut for C14 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.v = v; self.o = self.ords[v].clone(); }
    fn describe(&self, v: usize) -> String { format!("ordinate tables {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "cmp" => {
                let (p, q) = (&a[1], &a[2]);
                match a[0].str() {
                    "coord" => both(vec![self.oc(p).compare_to(&self.oc(q)), -self.oc(q).compare_to(&self.oc(p))]),
                    "env" => both(vec![self.env(p).compare_to_envelope(&self.env(q))]),
                    "seg" => {
                        let s = |x: &J| LineSegment::new_from_coordinates(&self.oc(&x.a()[0]), &self.oc(&x.a()[1]));
                        both(vec![s(p).compare_to(&s(q))])
                    }
                    k if k.starts_with("seq") => {
                        let (s, t) = (self.seq(p), self.seq(q));
                        let c = match k { "seq0" => CSC::default(), "seq2" => CSC::new_with_dimension_limit(2), _ => CSC::new_with_dimension_limit(3) };
                        let mut v = vec![c.compare_coordinate_array_sequence(&s, &t),
                            LineString::new_from_coordinate_sequence(s.clone()).compare_to_with_comparator(&LineString::new_from_coordinate_sequence(t.clone()), &c),
                            LinearRing::new_with_coordinate_array_sequence(&s).compare_to_same_class_with_comparator(&LinearRing::new_with_coordinate_array_sequence(&t), &c)];
                        if s.size() == 1 && t.size() == 1 { v.push(Point::new_with_coordinate_seq(&s).compare_to_same_class(&Point::new_with_coordinate_seq(&t), &c)); }
                        both(v)
                    }
                    "line" => {
                        let (s, t) = (self.ocs(p), self.ocs(q));
                        let (l, m) = (self.line(&s), self.line(&t));
                        let (g, h) = (LinearRing::new_with_coordinates(&s), LinearRing::new_with_coordinates(&t));
                        let c = CSC::new_with_dimension_limit(2);
                        both(vec![l.compare_to(&m), l.compare_to_with_comparator(&m, &c), g.compare_to_same_class(&h), g.compare_to_same_class_with_comparator(&h, &c)])
                    }
                    "point" => {
                        let f = |x: &J| if x.a().is_empty() { Point::default() } else { Point::new_with_coordinate(&self.oc(&x.a()[0]), None) };
                        both(vec![f(p).compare_to_same_class(&f(q), &CSC::new_with_dimension_limit(2))])
                    }
                    "poly" => {
                        let (s, t) = (self.poly(p, false), self.poly(q, false));
                        both(vec![s.compare_to(&t), s.compare_to_with_comparator(&t, &CSC::new_with_dimension_limit(2))])
                    }
                    k if k.starts_with("lpoly") => {
                        let c = if k == "lpoly0" { CSC::default() } else { CSC::new_with_dimension_limit(2) };
                        let f = |x: &J| {
                            let r: Vec<LinearRing> = x.a().iter().map(|v| LinearRing::new_with_coordinate_array_sequence(&self.seq(v))).collect();
                            Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec())
                        };
                        both(vec![f(p).compare_to_with_comparator(&f(q), &c), -f(q).compare_to_with_comparator(&f(p), &c)])
                    }
                    "model" => { let (s, t) = (self.model(p), self.model(q)); both(vec![s.compare_to(&t)]) }
                    x => panic!("harness: kind {}", x),
                }
            }
            "ceq" => {
                let (c, d, o, e) = (self.lc(&a[0]), self.lc(&a[1]), self.oc(&a[0]), self.oc(&a[1]));
                let t = a[2].f() / 2. * self.unit();
                J::A(vec![agree(vec![c.equals_2d(&d), o.equals_2d(&e)]), agree(vec![c.equals_3d(&d), o.equals_3d(&e)]),
                    agree(vec![c.equals_2d_with_tolerance(&d, t), d.equals_2d_with_tolerance(&c, t)]), agree(vec![c.equal_in_z(&d, t), c.equal_in_coordinate_z(&d, t)])])
            }
            "segeq" => { let s = |x: &J| LineSegment::new_from_coordinates(&self.oc(&x.a()[0]), &self.oc(&x.a()[1])); let (p, q) = (s(&a[0]), s(&a[1]));
                let r = LineSegment::new_from_line_segment(&q);
                if p.equals(&q) != q.equals(&p) || p.equals(&r) != p.equals(&q) || p.equals_topo(&q) != q.equals_topo(&p) { return J::I(BAD); }
                J::A(vec![bit(p.equals_topo(&q)), bit(p.equals(&q))]) }
            "lineq" => {
                let t = a[2].f() / 2. * self.unit();
                let (s, u) = (self.lcs(&a[0]), self.lcs(&a[1]));
                let mut v = vec![self.line(&s).equals_exact(&self.line(&u), t), self.line(&u).equals_exact(&self.line(&s), t),
                    LinearRing::new_with_coordinates(&s).equals_exact(&LinearRing::new_with_coordinates(&u), t)];
                if s.len() < 2 && u.len() < 2 {
                    let p = |s: &[Coordinate]| if s.is_empty() { Point::default() } else { Point::new_with_coordinate(&s[0], None) };
                    v.push(p(&s).equals_exact(&p(&u), t));
                }
                // as many single members, one to one
                let mp = |s: &[Coordinate]| MultiPoint::new_with_points(&s.iter().map(|c| Point::new_with_coordinate(c, None)).collect());
                let ml = |s: &[Coordinate]| MultiLineString::new_with_line_strings(&s.iter().map(|c| self.line(&[*c, *c])).collect());
                v.push(mp(&s).equals_exact(mp(&u), t));
                v.push(ml(&s).equals_exact(&ml(&u), t));
                agree(v)
            }
            "polyq" => { let t = a[2].f() / 2. * self.unit(); let (p, q) = (self.poly(&a[0], true), self.poly(&a[1], true)); 
                let ma = |p: &J| MultiPolygon::new_with_polygons(&p.a().iter().map(|r| Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(&self.lcs(r)))).collect());
                let ml = |p: &J| MultiLineString::new_with_line_strings(&p.a().iter().map(|r| self.line(&self.lcs(r))).collect());
                agree(vec![p.equals_exact(&q, t), q.equals_exact(&p, t), ma(&a[0]).equals_exact(ma(&a[1]), t), ml(&a[0]).equals_exact(&ml(&a[1]), t)]) }
            "digits" => J::from(self.model(&a[0]).get_maximum_significant_digits()),
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 2, 30]);
        let nz = |r: &mut Rng| if r.chance(1, 4) { NAN } else { r.range(-m, m) };
        let p2 = |r: &mut Rng| J::from(vec![r.range(-m, m), r.range(-m, m)]);
        let seq = |r: &mut Rng, n: i64| -> Vec<J> { (0..n).map(|_| J::from(vec![r.range(-m, m), r.range(-m, m)])).collect() };
        fn tweak(r: &mut Rng, t: &[J], m: i64) -> Vec<J> {
            let mut u = t.to_vec();
            match r.below(4) {
                0 => { u.pop(); }
                1 => u.push(J::from(vec![r.range(-m, m), r.range(-m, m)])),
                2 if !u.is_empty() => { let i = r.below(u.len()); let mut c = u[i].a().to_vec(); let k = r.below(c.len()); c[k] = J::I(r.range(-m, m)); u[i] = J::A(c); }
                _ => {}
            }
            u
        }
        let q = |o: &str, a: Vec<J>| vec![(o.to_string(), J::A(a))];
        match r.below(13) {
            11 | 12 => {
                // polygons with layouts; one ring of the second is changed in one ordinate
                let ly = *r.pick(&["XY", "XYZ", "XYM", "XYZM"]);
                let mk = |r: &mut Rng| -> Vec<J> { let n = size(r, 0, 4); (0..n).map(|_| { let mut c = vec![J::I(r.range(-m, m)), J::I(r.range(-m, m))]; for _ in 2..layout(ly).0 { c.push(J::I(nz(r))); } J::A(c) }).collect() };
                let n = size(r, 1, 4);
                let p: Vec<Vec<J>> = (0..n).map(|_| mk(r)).collect();
                let mut s = p.clone();
                match r.below(4) {
                    0 if s.len() > 1 => { s.pop(); }
                    1 => { let k = mk(r); s.push(k); }
                    _ => { let i = r.below(s.len()); if !s[i].is_empty() { let j = r.below(s[i].len()); let mut c = s[i][j].a().to_vec(); let k = r.below(c.len()); c[k] = if k > 1 { J::I(nz(r)) } else { J::I(r.range(-m, m)) }; s[i][j] = J::A(c); } }
                }
                let w = |p: Vec<Vec<J>>| J::A(p.into_iter().map(|t| J::A(vec![J::s(ly), J::A(t)])).collect());
                q("cmp", vec![J::s(*r.pick(&["lpoly0", "lpoly2"])), w(p), w(s)])
            }
            0 => { let c = |r: &mut Rng| J::from(vec![r.range(-m, m), r.range(-m, m), nz(r)]); let (c, d) = (c(r), c(r)); q("cmp", vec![J::s("coord"), c, d]) }
            1 => { let c = |r: &mut Rng| J::from(vec![r.range(-3, 3), r.range(-3, 3), if r.chance(1, 4) { NAN } else { r.range(-3, 3) }]); let (c, d) = (c(r), c(r)); q("ceq", vec![c, d, J::I(r.range(0, 9))]) }
            2 => {
                let e = |r: &mut Rng| { if r.chance(1, 8) { return ja![]; } let (a, b, c, d) = (r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m)); ja![a.min(b), c.min(d), a.max(b), c.max(d)] };
                let (c, d) = (e(r), e(r)); q("cmp", vec![J::s("env"), c, d])
            }
            3 => { let s = J::A(seq(r, 2)); let t = if r.chance(1, 3) { J::A(s.a().iter().rev().cloned().collect()) } else { J::A(seq(r, 2)) }; if r.chance(1, 2) { q("cmp", vec![J::s("seg"), s, t]) } else { q("segeq", vec![s, t]) } }
            4 | 5 => {
                let lys = ["XY", "XYZ", "XYM", "XYZM"];
                let ly = *r.pick(&lys);
                let n = size(r, 0, 5);
                let t: Vec<J> = (0..n).map(|_| { let mut c = p2(r).a().to_vec(); for _ in 2..layout(ly).0 { c.push(J::I(nz(r))); } J::A(c) }).collect();
                let lz = if r.chance(3, 4) { ly } else { *r.pick(&lys) };
                let u: Vec<J> = if lz == ly { let k = r.below(3); if k == 0 { t.clone() } else if k == 1 { let mut u = t.clone(); u.pop(); u } else { t.iter().map(|c| { let mut c = c.a().to_vec(); if r.chance(1, 3) { let k = r.below(c.len()); c[k] = if k > 1 { J::I(nz(r)) } else { J::I(r.range(-m, m)) }; } J::A(c) }).collect() } }
                    else { t.iter().map(|c| { let mut c = c.a().to_vec(); c.truncate(layout(lz).0 as usize); while (c.len() as i32) < layout(lz).0 { c.push(J::I(nz(r))); } J::A(c) }).collect() };
                let k = *r.pick(&["seq0", "seq2", "seq3"]);
                q("cmp", vec![J::s(k), J::A(vec![J::s(ly), J::A(t)]), J::A(vec![J::s(lz), J::A(u)])])
            }
            6 => { let n = size(r, 0, 6); let t = seq(r, n); let u = tweak(r, &t, m); if r.chance(1, 2) { q("cmp", vec![J::s("line"), J::A(t), J::A(u)]) } else { q("lineq", vec![J::A(t), J::A(u), J::I(*r.pick(&[0, 1, 3, 5, 7]))]) } }
            7 => { let n = r.range(0, 1); let t = seq(r, n); let n = r.range(0, 1); let u = seq(r, n); q("cmp", vec![J::s("point"), J::A(t), J::A(u)]) }
            8 | 9 => {
                let n = size(r, 1, 4);
                let p: Vec<J> = (0..n).map(|_| { let k = size(r, 0, 5); J::A(seq(r, k)) }).collect();
                let mut s = p.clone();
                match r.below(4) { 0 if s.len() > 1 => { s.pop(); } 1 => { let k = r.range(0, 4); s.push(J::A(seq(r, k))); } 2 => { let i = r.below(s.len()); s[i] = J::A(tweak(r, s[i].a(), m)); } _ => {} }
                if r.chance(1, 2) { q("cmp", vec![J::s("poly"), J::A(p), J::A(s)]) } else { q("polyq", vec![J::A(p), J::A(s), J::I(*r.pick(&[0, 1, 3, 5]))]) }
            }
            _ => {
                let f = |r: &mut Rng| match r.below(6) { 0 => ja!["F"], 1 => ja!["S"], _ => { let n = r.range(1, 900000); let d = r.range(1, 50); ja!["X", n, d] } };
                let ok = |m: &J| m.a().len() == 1 || { let (n, d) = (m.a()[1].i(), m.a()[2].i()); !(0..8).any(|k| n == d * 10i64.pow(k) && n != d) && n * 10 > d };
                let (mut x, mut y) = (f(r), f(r));
                while !ok(&x) { x = f(r); }
                while !ok(&y) { y = f(r); }
                if r.chance(1, 2) { q("cmp", vec![J::s("model"), x, y]) } else { q("digits", vec![x]) }
            }
        }
    }
}
