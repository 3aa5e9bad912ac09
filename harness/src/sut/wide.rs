//! Points whose ordinates are of incomparable size (module Wide).
use super::util::*;
use crate::big::Big;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

/// e = 2^-k, everything scaled by 2^s
const KS: [(i64, i64); 12] = [(26, 0), (52, 0), (20, 7), (30, -40), (40, 0), (47, 3), (50, 100), (17, 0), (60, 0), (80, -5), (35, 0), (100, 20)];

/// a number and how far from it extended precision arithmetic may be
#[derive(Clone)]
struct E { b: Big, t: f64 }
fn mag(b: &Big) -> f64 { b.f64().abs() }
fn span(b: &Big) -> i64 { b.bits().map_or(0, |(h, l)| h - l + 1) }
impl E {
    fn of(x: f64) -> E { E { b: Big::of(x), t: 0.0 } }
    fn sub(&self, o: &E) -> E {
        let t = match (self.b.bits(), o.b.bits()) { (Some(a), Some(b)) if a.0.max(b.0) - a.1.min(b.1) > 98 => p2(-100) * mag(&self.b).max(mag(&o.b)), _ => 0.0 };
        E { b: self.b.sub(&o.b), t: t + (self.t + o.t) * 1.001 }
    }
    fn neg(&self) -> E { E { b: self.b.clone().neg(), t: self.t } }
    fn add(&self, o: &E) -> E { self.sub(&o.neg()) }
    fn mul(&self, o: &E) -> E {
        let (x, y) = (mag(&self.b), mag(&o.b));
        let own = if span(&self.b) + span(&o.b) <= 99 { 0.0 } else { p2(-98) * x * y };
        E { b: self.b.mul(&o.b), t: own + (self.t * y + o.t * x + self.t * o.t) * 1.001 }
    }
    fn det(x: &E, y: &E, z: &E, w: &E) -> E { x.mul(w).sub(&y.mul(z)) }
    /// the sign is beyond doubt
    fn sure(&self) -> bool { self.t == 0.0 || mag(&self.b) > 2.0 * self.t }
    /// error of a quotient
    fn over(&self, w: &E) -> f64 { (self.t + mag(&self.b) / mag(&w.b) * w.t) * 2.0 / mag(&w.b) + p2(-94) * mag(&self.b) / mag(&w.b) }
}
type P = (E, E);
fn ep(c: &Coordinate) -> P { (E::of(c.x), E::of(c.y)) }
/// the turn of three points is beyond doubt, whichever way it is computed
fn sure(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> bool {
    let p = [ep(a), ep(b), ep(c)];
    [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0)].iter().all(|&(i, j, k)| {
        let d = |i: usize, j: usize| (p[j].0.sub(&p[i].0), p[j].1.sub(&p[i].1));
        let (u, v, w) = (d(i, j), d(j, k), d(i, k));
        E::det(&u.0, &u.1, &v.0, &v.1).sure() && E::det(&u.0, &u.1, &w.0, &w.1).sure()
    })
}
fn all_sure(q: &[Coordinate]) -> bool {
    for i in 0..q.len() { for j in 0..i { for k in 0..j { if !sure(&q[i], &q[j], &q[k]) { return false; } } } }
    true
}

pub struct Wide { what: String, k: i64, s: i64, n: usize, used: RobustLineIntersector }
impl Wide {
    pub fn new(job: &str, _seed: u64, _thorough: bool) -> Wide { Wide { what: job[2..].to_string(), k: 26, s: 0, n: 0, used: RobustLineIntersector::default() } }
    fn ord(&self, p: &J) -> Option<f64> {
        let b = Big::poly(&p.ints(), self.k).scale(self.s);
        if b.bits().map_or(false, |(h, l)| l < -240 || h > 240) { return None; }
        let x = b.f64();
        if Big::of(x).sub(&b).zero() { Some(x) } else { None }
    }
    fn obs(&self, x: f64, t: f64) -> J {
        if !x.is_finite() { return J::F(x); }
        J::O(vec![("hi".into(), J::F(x)), ("lo".into(), J::F(0.0)), ("k".into(), J::I(self.k)), ("s".into(), J::I(self.s)), ("t".into(), J::F(t + 1.01 * f64::EPSILON * x.abs()))])
    }
}
impl Sut for Wide {
    fn variants(&self) -> usize { KS.len() }
    fn begin(&mut self, v: usize) { self.k = KS[v].0; self.s = KS[v].1; }
    fn describe(&self, v: usize) -> String { format!("e = 2^-{}, scale 2^{}", KS[v].0, KS[v].1) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let sk = J::s("skip");
        let mut q = vec![];
        for p in a {
            match (self.ord(&p.a()[0]), self.ord(&p.a()[1])) { (Some(x), Some(y)) => q.push(Coordinate::new_xy(x, y)), _ => return sk }
        }
        self.n += 1;
        match op {
            "turn" => {
                if !sure(&q[0], &q[1], &q[2]) { return sk; }
                let t = Orientation::index(&q[0], &q[1], &q[2]);
                if CGAlgorithmsDD::orientation_index_coordinates(&q[0], &q[1], &q[2]) != t { return ja![BAD, 1]; }
                if CGAlgorithmsDD::orientation_index_xy(q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y) != t { return ja![BAD, 2]; }
                let f = CGAlgorithmsDD::orientation_index_filter(q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y);
                if f <= 1 && f != t { return ja![BAD, 3]; }
                if LineSegment::new_from_coordinates(&q[0], &q[1]).orientation_index_coordinate(&q[2]) != t { return ja![BAD, 4]; }
                J::I(t as i64)
            }
            "where" => {
                if !all_sure(&q) { return sk; }
                let mut ring = q[..3].to_vec();
                if self.n % 2 == 1 { ring.reverse(); }
                ring.rotate_left(self.n % 3);
                ring.push(ring[0].clone());
                let v = RayCrossingCounter::locate_point_in_ring_vec(&q[3], &ring) as i64;
                if PointLocation::locate_in_ring(&q[3], &ring) as i64 != v || PointLocation::is_in_ring(&q[3], &ring) != (v != 2) { return ja![BAD, 1]; }
                let on = PointLocation::is_on_segment(&q[3], &q[0], &q[1]);
                if PointLocation::is_on_line_coordinates(&q[3], &q[..2].to_vec()) != on { return ja![BAD, 2]; }
                if q[0].x != q[1].x || q[0].y != q[1].y {
                    self.used.compute_intersection_3(&q[3], &q[0], &q[1]);
                    if self.used.has_intersection() != on { return ja![BAD, 3]; }
                }
                ja![v, bit(on)]
            }
            "cross" => {
                if !all_sure(&q) { return sk; }
                self.used.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
                let mut li = RobustLineIntersector::default();
                li.compute_intersection_4(&q[3], &q[2], &q[0], &q[1]);
                let (k, pr) = (li.verif_result(), li.verif_is_proper());
                if self.used.verif_result() != k || self.used.verif_is_proper() != pr || self.used.has_intersection() != (k != 0) { return ja![BAD, 1]; }
                for i in 0..k.max(0).min(2) as usize {
                    let c = self.used.get_intersection(i);
                    let inb = |c: &Coordinate, a: &Coordinate, b: &Coordinate| c.x >= a.x.min(b.x) && c.x <= a.x.max(b.x) && c.y >= a.y.min(b.y) && c.y <= a.y.max(b.y);
                    if !inb(&c, &q[0], &q[1]) || !inb(&c, &q[2], &q[3]) { return ja![BAD, 2]; }
                    // other than a proper one, it is an end
                    if !pr && !q.iter().any(|p| p.x == c.x && p.y == c.y) { return ja![BAD, 3]; }
                }
                ja![k, pr as i64]
            }
            "ccw" => {
                if !sure(&q[0], &q[1], &q[2]) { return sk; }
                let mut ring = q[..3].to_vec();
                ring.rotate_left(self.n % 3);
                ring.push(ring[0].clone());
                let b = Orientation::is_ccw_vec(&ring);
                if self.n % 2 == 1 { let mut back = ring.clone(); back.reverse(); if b && Orientation::is_ccw_vec(&back) { return ja![BAD, 1]; } }
                bit(b)
            }
            "meet" => {
                let p: Vec<P> = q.iter().map(ep).collect();
                let line = |a: &P, b: &P| (a.1.sub(&b.1), b.0.sub(&a.0), a.0.mul(&b.1).sub(&b.0.mul(&a.1)));
                let (l, m) = (line(&p[0], &p[1]), line(&p[2], &p[3]));
                let w = E::det(&l.0, &l.1, &m.0, &m.1);
                if !w.sure() { return sk; }
                let (x, y) = (E::det(&l.1, &l.2, &m.1, &m.2), E::det(&l.2, &l.0, &m.2, &m.0));
                let mut out = vec![];
                for r in [CGAlgorithmsDD::intersection(&q[0], &q[1], &q[2], &q[3]), Intersection::intersection(&q[0], &q[1], &q[2], &q[3]),
                          LineSegment::new_from_coordinates(&q[0], &q[1]).line_intersection(LineSegment::new_from_coordinates(&q[2], &q[3]))] {
                    out.push(match r { None => J::s("none"), Some(c) => if w.b.zero() { ja![BAD] } else { ja![self.obs(c.x, 4.0 * x.over(&w)), self.obs(c.y, 4.0 * y.over(&w))] } });
                }
                J::O(vec![("all".into(), J::A(out))])
            }
            "circum" => {
                let c = Triangle::circumcentre_dd_coordinates(&q[0], &q[1], &q[2]);
                // the largest doubt, whichever vertex is the origin
                let (mut tx, mut ty) = (0f64, 0f64);
                for i in 0..3 {
                    let (t, u, v) = (ep(&q[i]), ep(&q[(i + 1) % 3]), ep(&q[(i + 2) % 3]));
                    let (ax, ay, bx, by) = (u.0.sub(&t.0), u.1.sub(&t.1), v.0.sub(&t.0), v.1.sub(&t.1));
                    let w = E::det(&ax, &ay, &bx, &by);
                    if w.b.zero() || !w.sure() { return sk; }
                    let w = E { b: w.b.scale(1), t: 2.0 * w.t };
                    let (m, n) = (ax.mul(&ax).add(&ay.mul(&ay)), bx.mul(&bx).add(&by.mul(&by)));
                    tx = tx.max(E::det(&ay, &m, &by, &n).over(&w));
                    ty = ty.max(E::det(&ax, &m, &bx, &n).over(&w));
                    tx = tx.max(p2(-100) * q[i].x.abs());
                    ty = ty.max(p2(-100) * q[i].y.abs());
                }
                ja![self.obs(c.x, 4.0 * tx), self.obs(c.y, 4.0 * ty)]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = if self.what == "circum" { 3 } else { *r.pick(&[1, 2, 6]) };
        let poly = |r: &mut Rng| -> Vec<i64> {
            let n = r.range(0, 3);
            (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.range(-m, m) }).collect()
        };
        let j = |v: &Vec<i64>| { let mut v = v.clone(); while v.last() == Some(&0) { v.pop(); } J::A(v.into_iter().map(J::I).collect()) };
        let lin = |a: &Vec<i64>, b: &Vec<i64>, n: i64, d: i64| -> Vec<i64> { (0..a.len().max(b.len())).map(|i| { let (x, y) = (*a.get(i).unwrap_or(&0), *b.get(i).unwrap_or(&0)); x + (y - x) * n / d }).collect() };
        let nudge = |r: &mut Rng, v: Vec<i64>| -> Vec<i64> { let mut v = v; if r.chance(1, 2) { while v.len() < 3 { v.push(0); } let i = r.below(3); v[i] += r.range(-1, 1); } v };
        let mut p = vec![];
        for i in 0..4 {
            if i >= 2 && r.chance(2, 3) {
                // on or near the line through two earlier points
                let (n, d) = *r.pick(&[(1, 2), (2, 1), (-1, 1), (1, 1), (0, 1), (3, 1)]);
                let (a, b): (&(Vec<i64>, Vec<i64>), &(Vec<i64>, Vec<i64>)) = (&p[i - 2], &p[i - 1]);
                let (x, y) = (lin(&a.0, &b.0, n, d), lin(&a.1, &b.1, n, d));
                let ok = x.iter().chain(y.iter()).all(|c| c.abs() <= 12);
                if ok { let (x, y) = (nudge(r, x), nudge(r, y)); p.push((x, y)); continue; }
            }
            p.push((poly(r), poly(r)));
        }
        let n = match self.what.as_str() { "turn" | "ccw" | "circum" => 3, _ => 4 };
        for i in (1..n).rev() { let k = r.below(i + 1); p.swap(i, k); }
        vec![(self.what.clone(), J::A(p[..n].iter().map(|(x, y)| ja![j(x), j(y)]).collect()))]
    }
}
