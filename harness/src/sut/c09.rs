//! C09: octagonal envelopes.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C09 { embs: Vec<Emb>, cur: Emb, o: OctagonalEnvelope, r: Rng }

impl C09 {
    pub fn new(seed: u64, thorough: bool) -> C09 {
        let embs: Vec<Emb> = similar_small(seed, if thorough { 48 } else { 16 }).into_iter().map(|e| Emb { a: 1, b: 0, c: 0, d: 1, ..e }).collect();
        C09 { embs, cur: Emb::id(), o: OctagonalEnvelope::default(), r: Rng::new(seed) }
    }
    fn oct(&mut self, a: &J) -> OctagonalEnvelope {
        let p = pts(&self.cur, a);
        match (p.len(), self.r.below(4)) {
            (0, 0) => OctagonalEnvelope::default(),
            (0, _) => { let mut o = OctagonalEnvelope::new_with_coordinate(&Coordinate::new_xy(1.0, 2.0)); o.set_to_null(); o }
            (1, 0) => OctagonalEnvelope::new_with_coordinate(&p[0]),
            (2, 0) => OctagonalEnvelope::new_with_coordinates(&p[0], &p[1]),
            (_, 1) => OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&p))),
            (_, 2) => {
                let mut o = OctagonalEnvelope::default();
                for c in p.iter().rev() { o.expand_to_include_octagonal_envelope(&OctagonalEnvelope::new_with_coordinate(c)); }
                OctagonalEnvelope::new_with_octagonal_envelope(&o)
            }
            _ => { let mut o = OctagonalEnvelope::default(); for c in &p { o.expand_to_include_xy(c.x, c.y); } o }
        }
    }
    fn env(&self, a: &J) -> Envelope {
        let v = a.ints();
        if v.is_empty() { return Envelope::default(); }
        Envelope::new_coordinates(&self.cur.pt(v[0], v[2]), &self.cur.pt(v[1], v[3]))
    }
    fn obs(&self) -> J {
        let (o, e) = (&self.o, &self.cur);
        if o.is_null() { return ja!["null"]; }
        if !o.is_valid() { return J::I(BAD); }
        let f = |x: f64, t: i64| J::F(x / e.s() - t as f64);
        J::A(vec![f(o.get_min_x(), e.tx), f(o.get_max_x(), e.tx), f(o.get_min_y(), e.ty), f(o.get_max_y(), e.ty),
            f(o.get_min_a(), e.tx + e.ty), f(o.get_max_a(), e.tx + e.ty), f(o.get_min_b(), e.tx - e.ty), f(o.get_max_b(), e.tx - e.ty)])
    }
}

impl Sut for C09 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; self.o = OctagonalEnvelope::default(); }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.cur;
        match op {
            "mut" => {
                match a[0].str() {
                    "null" => self.o.set_to_null(),
                    "pt" => { let p = pt(&e, &a[1]); if self.r.chance(1, 2) { self.o.expand_to_include_coordinate(&p) } else { self.o.expand_to_include_xy(p.x, p.y) } }
                    "line" => { let s = CoordinateArraySequence::new_with_coordinates(&pts(&e, &a[1])); self.o.expand_to_include_coordinate_array_sequence(&s) }
                    "oct" => { let q = self.oct(&a[1]); self.o.expand_to_include_octagonal_envelope(&q) }
                    "env" => {
                        let q = self.env(&a[1]);
                        if self.r.chance(1, 2) { self.o.expand_to_include_envelope(&q) } else { self.o.expand_to_include_octagonal_envelope(&OctagonalEnvelope::new_with_envelope(&q)) }
                    }
                    "by" => self.o.expand_by_distance(a[1].i() as f64 * e.s()),
                    x => panic!("harness: mut {}", x),
                }
                self.obs()
            }
            "pair" => {
                let (mut x, mut y) = (self.oct(&a[0]), self.oct(&a[2]));
                if a[1].i() != 0 { x.expand_by_distance(a[1].i() as f64 * e.s()); }
                if a[3].i() != 0 { y.expand_by_distance(a[3].i() as f64 * e.s()); }
                let m = x.intersects_octagonal_envelope(&y);
                if y.intersects_octagonal_envelope(&x) != m { return J::I(BAD); }
                J::A(vec![bit(m), bit(x.contains_octagonal_envelope(&y)), J::A(a[4].a().iter().map(|p| bit(x.intersects_coordinate(&pt(&e, p)))).collect())])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 5, 20]);
        let some = |r: &mut Rng| -> J { let n = size(r, 0, 4); J::A((0..n).map(|_| rpt(r, m)).collect()) };
        if r.chance(1, 2) {
            let g = |r: &mut Rng| if r.chance(1, 2) { 0 } else { r.range(0, 3) };
            let (d1, d2) = (g(r), g(r));
            return vec![("pair".into(), ja![some(r), d1, some(r), d2, J::A((0..12).map(|_| rpt(r, m)).collect())])];
        }
        (0..size(r, 2, 9).min(120)).map(|_| ("mut".to_string(), match r.below(8) {
            0 => if r.chance(1, 3) { ja!["null"] } else { J::A(vec![J::s("oct"), some(r)]) },
            1 | 2 | 3 => J::A(vec![J::s("pt"), rpt(r, m)]),
            4 => J::A(vec![J::s("line"), some(r)]),
            5 => { let (a, b, c, d) = (r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m)); J::A(vec![J::s("env"), if r.chance(1, 4) { ja![] } else { ja![a.min(b), a.max(b), c.min(d), c.max(d)] }]) }
            _ => ja!["by", r.range(-3, 3)],
        })).collect()
    }
}
