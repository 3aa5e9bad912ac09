//! C26: heights of the points in which segments meet.
use super::util::*;
use super::c12::NAN;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C26 { embs: Vec<Emb>, v: usize, used: RobustLineIntersector }
/// heights are mapped by h -> scale * h + offset, exactly
const Z: [(f64, f64); 8] = [(1.0, 0.0), (0.25, -1.0), (-1024.0, 65536.0), (3.0, 0.0), (1.0, -8.0), (1.0 / 4294967296.0, 0.0), (-1.0 / 1048576.0, 0.5), (1.0e18, 0.0)];
impl C26 {
    pub fn new(seed: u64, thorough: bool) -> C26 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed ^ 26, 9 * k);
        embs.extend(turned(seed ^ 26, 4 * k, 12));
        C26 { embs, v: 0, used: RobustLineIntersector::default() }
    }
    fn z(&self, z: f64) -> J {
        if z.is_nan() { return J::I(NAN); }
        let (s, o) = Z[self.v % Z.len()];
        let h = (z - o) / s;
        if h.fract() == 0.0 && h.abs() < 1e9 && h * s + o == z { J::I(h as i64) } else { tol(h, 1e-7) }
    }
}
impl Sut for C26 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.v = v; }
    fn describe(&self, v: usize) -> String { format!("{:?} heights {:?}", self.embs[v], Z[v % Z.len()]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        if op != "lift" { panic!("harness: op {}", op); }
        let e = self.embs[self.v];
        let (s, o) = Z[self.v % Z.len()];
        let flat: Vec<Coordinate> = (0..4).map(|i| pt(&e, &a[i])).collect();
        let q: Vec<Coordinate> = (0..4).map(|i| {
            let mut c = flat[i];
            let h = a[4 + i].i();
            if h != NAN { c.set_z(h as f64 * s + o); }
            if (self.v + i) % 3 == 0 { c.set_m(100.0 + i as f64); } // measures take no part
            c
        }).collect();
        let mut li = RobustLineIntersector::default();
        li.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
        self.used.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
        let mut fl = RobustLineIntersector::default();
        fl.compute_intersection_4(&flat[0], &flat[1], &flat[2], &flat[3]);
        let k = li.verif_result();
        if k != fl.verif_result() || k != self.used.verif_result() || li.verif_is_proper() != fl.verif_is_proper() { return ja![BAD, 1]; }
        let n = if k == 0 { 0 } else if k == 1 { 1 } else { 2 };
        let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
        let mut out = vec![];
        for i in 0..n {
            let (c, u, f) = (li.get_intersection(i), self.used.get_intersection(i), fl.get_intersection(i));
            if c.x != f.x || c.y != f.y || c.x != u.x || c.y != u.y { return ja![BAD, 2]; }
            if !same(c.z, u.z) || !f.z.is_nan() { return ja![BAD, 3]; }
            out.push(ja![unpt(&e, &c), self.z(c.z)]);
        }
        let ls = LineSegment::new_from_coordinates(&q[0], &q[1]).intersection(&LineSegment::new_from_coordinates(&q[2], &q[3]));
        match ls {
            None => if k != 0 { return ja![BAD, 4]; },
            Some(c) => { if k == 0 { return ja![BAD, 5]; } let p = li.get_intersection(0); if c.x != p.x || c.y != p.y || !same(c.z, p.z) { return ja![BAD, 6]; } }
        }
        J::A(vec![J::I(k as i64), J::A(out)])
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 6, 20, 60]);
        let rp = |r: &mut Rng| (r.range(-m, m), r.range(-m, m));
        let (a, b) = loop { let (a, b) = (rp(r), rp(r)); if a != b { break (a, b); } };
        let g = super::c01::gcd((b.0 - a.0).abs(), (b.1 - a.1).abs()).max(1);
        let on = |r: &mut Rng, lo: i64, hi: i64| { let t = r.range(lo, hi); (a.0 + (b.0 - a.0) / g * t, a.1 + (b.1 - a.1) / g * t) };
        let (c, d) = loop {
            let mode = r.below(6);
            let c = match mode { 0 | 1 => on(r, -1, g + 1), 2 => a, 3 => b, _ => rp(r) };
            let d = match mode { 0 => on(r, -1, g + 1), 5 => { let o = on(r, 0, g); (2 * o.0 - c.0, 2 * o.1 - c.1) } _ => rp(r) };
            if c != d { break (c, d); }
        };
        let mut v = vec![a, b, c, d];
        if r.chance(1, 2) { v.swap(0, 1); }
        if r.chance(1, 2) { v.swap(2, 3); }
        if r.chance(1, 2) { v.swap(0, 2); v.swap(1, 3); }
        let miss = r.below(4);
        let mut out: Vec<J> = v.iter().map(|p| ja![p.0, p.1]).collect();
        for _ in 0..4 { out.push(J::I(if r.chance(miss as u64, 4) { NAN } else { r.range(-5, 9) })); }
        vec![("lift".into(), J::A(out))]
    }
}
