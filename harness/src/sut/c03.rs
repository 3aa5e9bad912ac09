//! C03: segment intersection with fresh and reused intersectors.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

/// the first `sim` embeddings keep the ratios of lengths; those from `full` on have coordinate
/// differences that are not doubles
pub struct C03 { embs: Vec<Emb>, sim: usize, far: usize, full: usize, at: usize, cur: Emb, used: RobustLineIntersector }

impl C03 {
    pub fn new(seed: u64, thorough: bool) -> C03 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 8 * k);
        embs.extend(similar_big(seed, 8 * k));
        let sim = embs.len();
        embs.extend(affine(seed, 24 * k, 512));
        // squares fit, cubes do not
        let far = embs.len();
        embs.extend(similar_small(seed ^ 5, 4 * k).into_iter().enumerate().map(|(i, e)| Emb { k: [346, -346, 400, -360, 480, -400, 352, -352][i % 8], exact: false, ..e }));
        let n = embs.len();
        embs.extend(full(seed ^ 3, 8 * k, 1, 1));
        embs.extend(full(seed ^ 4, 8 * k, 240, 0));
        C03 { embs, sim, far, full: n, at: 0, cur: Emb::id(), used: RobustLineIntersector::default() }
    }
    fn same(a: &Coordinate, b: &Coordinate) -> bool { a.x == b.x && a.y == b.y }
    fn meet(&mut self, a: &[J], log: bool) -> J {
        let e = self.cur;
        let q: Vec<Coordinate> = a.iter().map(|p| pt(&e, p)).collect();
        let deg = Self::same(&q[0], &q[1]) || Self::same(&q[2], &q[3]);
        let mut li = RobustLineIntersector::default();
        li.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
        self.used.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
        let (k, pr) = (li.verif_result(), li.verif_is_proper());
        let bad = |c: i64| ja![ja![BAD, c], ja![]];
        if self.used.verif_result() != k || self.used.verif_is_proper() != pr { return bad(1); }
        if li.has_intersection() != (k != 0) { return bad(2); }
        let n = if k == 0 { 0 } else if k == 1 { 1 } else { 2 };
        let mut p: Vec<Coordinate> = (0..n).map(|i| li.get_intersection(i)).collect();
        for i in 0..n { if !Self::same(&p[i], &self.used.get_intersection(i)) { return bad(3); } }
        let ls = LineSegment::new_from_coordinates(&q[0], &q[1]).intersection(&LineSegment::new_from_coordinates(&q[2], &q[3]));
        match ls { None => if k != 0 { return bad(4); }, Some(c) => if k == 0 || !Self::same(&c, &p[0]) { return bad(5); } }
        if li.compute_intersect(&q[0], &q[1], &q[2], &q[3]) != k { return bad(6); }
        let first = if deg { if p.len() == 2 && Self::same(&p[0], &p[1]) { p.pop(); } ja![(k != 0) as i64, "deg"] } else { ja![k, pr as i64] };
        let proper = k == 1 && pr;
        let mut out = vec![];
        for c in &p {
            if !proper { out.push(unpt(&e, c)); continue; }
            let inb = |c: &Coordinate, a: &Coordinate, b: &Coordinate| c.x >= a.x.min(b.x) && c.x <= a.x.max(b.x) && c.y >= a.y.min(b.y) && c.y <= a.y.max(b.y);
            let (l, r) = (inb(c, &q[0], &q[1]), inb(c, &q[2], &q[3]));
            // beyond cubes of doubles any endpoint will do
            let inside = if self.at >= self.far && self.at < self.full { l || r } else { l && r };
            if !inside { out.push(ja![BAD]); continue; }
            if !e.exact { out.push(if log { ja![] } else { J::s("inside") }); continue; }
            let (x, y) = e.unf(c.x, c.y);
            if !log { out.push(ja![x, y]); continue; }
            let v: Vec<(i64, i64)> = a.iter().map(|p| (p.a()[0].i(), p.a()[1].i())).collect();
            let den = ((v[1].0 - v[0].0) * (v[3].1 - v[2].1) - (v[1].1 - v[0].1) * (v[3].0 - v[2].0)).abs();
            let r = |f: f64| { let g = f * den as f64; if (g - g.round()).abs() < 1e-5 { g.round() as i64 } else { BAD } };
            out.push(ja![r(x), r(y), den]);
        }
        J::A(vec![first, J::A(out)])
    }
}

impl Sut for C03 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.at = v; self.cur = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        // where the points do not fit, or line up beyond what two doubles resolve, the lattice itself
        self.cur = if self.at >= self.full && !spread(&self.embs[self.at], a) { Emb::id() } else { self.embs[self.at] };
        let e = self.cur;
        match op {
            "meet" => self.meet(a, false),
            "lmeet" => self.meet(a, true),
            "nearest" => {
                if self.at >= self.sim { return J::s("skip"); }
                let q: Vec<Coordinate> = a.iter().map(|p| pt(&e, p)).collect();
                unpt(&e, &self.used.nearest_endpoint(&q[0], &q[1], &q[2], &q[3]))
            }
            "onpt" => {
                let (p1, p2, p) = (pt(&e, &a[0]), pt(&e, &a[1]), pt(&e, &a[2]));
                let mut li = RobustLineIntersector::default();
                li.compute_intersection_3(&p, &p1, &p2);
                self.used.compute_intersection_3(&p, &p1, &p2);
                if li.has_intersection() != self.used.has_intersection() || li.verif_is_proper() != self.used.verif_is_proper() { return ja![BAD, 1]; }
                ja![bit(li.has_intersection()), bit(li.verif_is_proper())]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 6, 20, 60]);
        let rp = |r: &mut Rng| (r.range(-m, m), r.range(-m, m));
        let a = rp(r);
        let b = rp(r);
        let on = |r: &mut Rng| {
            // a lattice point on the line through a and b
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let g = super::c01::gcd(dx.abs(), dy.abs()).max(1);
            let t = r.range(-2, g + 2);
            ((a.0 + dx / g * t).clamp(-240, 240), (a.1 + dy / g * t).clamp(-240, 240))
        };
        let mode = r.below(6);
        let c = match mode { 0 | 1 => on(r), 2 => a, 3 => b, _ => rp(r) };
        let d = match mode { 0 => on(r), 4 => (c.0 + b.0 - a.0, c.1 + b.1 - a.1), _ => rp(r) };
        let j = |p: (i64, i64)| ja![p.0, p.1];
        // flip and exchange at random
        let (mut s, mut t) = ((a, b), (c, d));
        if r.chance(1, 2) { s = (s.1, s.0); }
        if r.chance(1, 2) { t = (t.1, t.0); }
        if r.chance(1, 2) { std::mem::swap(&mut s, &mut t); }
        if r.chance(1, 6) { return vec![("onpt".into(), ja![j(a), j(b), j(c)])]; }
        vec![("lmeet".into(), ja![j(s.0), j(s.1), j(t.0), j(t.1)])]
    }
}
