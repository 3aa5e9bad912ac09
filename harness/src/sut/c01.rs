//! C01: orientation of point triples.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

/// the embeddings from `full` on have coordinate differences that are not doubles
pub struct C01 { embs: Vec<Emb>, full: usize, wide: bool, cur: Emb }

impl C01 {
    pub fn new(seed: u64, thorough: bool) -> C01 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 8 * k);
        embs.extend(similar_big(seed, 12 * k));
        embs.extend(affine(seed, 40 * k, 4096));
        let n = embs.len();
        embs.extend(full(seed, 24 * k, 1, 1));
        embs.extend(full(seed ^ 1, 24 * k, 4000, 0));
        C01 { embs, full: n, wide: false, cur: Emb::id() }
    }
}

impl Sut for C01 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; self.wide = v >= self.full; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        // where the points do not fit, or lie on a line beyond what two doubles resolve, the lattice itself
        let l: Vec<(i64, i64)> = a.iter().map(|p| (p.a()[0].i(), p.a()[1].i())).collect();
        let flat = |i: usize, j: usize, k: usize| (l[j].0 - l[i].0) * (l[k].1 - l[i].1) == (l[j].1 - l[i].1) * (l[k].0 - l[i].0);
        let wide = self.wide && l.iter().all(|p| self.cur.holds(p.0, p.1)) && (2..l.len()).all(|k| !flat(0, 1, k));
        let e = if self.wide && !wide { Emb::id() } else { self.cur };
        let g = e.hand();
        match op {
            // every public route to the orientation of (p, q, r); the filter may answer "unsure" (2)
            "orient" => {
                let (p, q, r) = (pt(&e, &a[0]), pt(&e, &a[1]), pt(&e, &a[2]));
                let n = |x: i32| J::I(x as i64 * g);
                let f = CGAlgorithmsDD::orientation_index_filter(p.x, p.y, q.x, q.y, r.x, r.y);
                let i = Orientation::index(&p, &q, &r);
                let fv = if f > 1 { J::I(i as i64 * g) } else { n(f) };
                let det = if wide { i } else { CGAlgorithmsDD::sign_of_det2x2_f64(q.x - p.x, q.y - p.y, r.x - p.x, r.y - p.y) };
                let dd = CGAlgorithmsDD::sign_of_det2x_2dd(
                    &DD::value_of_f64(q.x).subtract_f64(p.x), &DD::value_of_f64(q.y).subtract_f64(p.y),
                    &DD::value_of_f64(r.x).subtract_f64(p.x), &DD::value_of_f64(r.y).subtract_f64(p.y));
                ja![n(i), n(CGAlgorithmsDD::orientation_index_coordinates(&p, &q, &r)),
                    n(CGAlgorithmsDD::orientation_index_xy(p.x, p.y, q.x, q.y, r.x, r.y)), fv, n(det), n(dd),
                    n(LineSegment::new_from_coordinates(&p, &q).orientation_index_coordinate(&r))]
            }
            // orientation of a segment relative to another one
            "segorient" => {
                let s = LineSegment::new_from_coordinates(&pt(&e, &a[0]), &pt(&e, &a[1]));
                let t = LineSegment::new_from_coordinates(&pt(&e, &a[2]), &pt(&e, &a[3]));
                ja![s.orientation_index_line_segment(&t) as i64 * g]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[3, 30, 4000]);
        let p = (r.range(-m, m), r.range(-m, m));
        let q = (r.range(-m, m), r.range(-m, m));
        // half of the time r is on, or next to, the line through p and q
        let c = if r.chance(1, 2) { (r.range(-m, m), r.range(-m, m)) } else {
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let gg = gcd(dx.abs(), dy.abs()).max(1);
            let t = r.range(-2, 2);
            ((p.0 + dx / gg * t + r.range(-1, 1)).clamp(-4090, 4090), (p.1 + dy / gg * t + if r.chance(1, 2) { 0 } else { r.range(-1, 1) }).clamp(-4090, 4090))
        };
        if r.chance(1, 4) {
            return vec![("segorient".into(), ja![ja![p.0, p.1], ja![q.0, q.1], ja![c.0, c.1], rpt(r, m)])];
        }
        vec![("orient".into(), ja![ja![p.0, p.1], ja![q.0, q.1], ja![c.0, c.1]])]
    }
}

pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
