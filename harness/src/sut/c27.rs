//! C27: where lines (and lines and segments) meet.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

/// the embeddings from `full` on have coordinate differences that are not doubles
pub struct C27 { embs: Vec<Emb>, full: usize, cur: usize, e: Emb, n: usize }
impl C27 {
    pub fn new(seed: u64, thorough: bool) -> C27 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed ^ 27, 8 * k);
        embs.extend(similar_big(seed ^ 27, 8 * k));
        embs.extend(turned(seed ^ 27, 4 * k, 20));
        embs.extend(affine(seed ^ 27, 10 * k, 1024));
        let n = embs.len();
        embs.extend(full(seed ^ 27, 8 * k, 2, 1));
        embs.extend(full(seed ^ 28, 8 * k, 300, 0));
        C27 { embs, full: n, cur: 0, e: Emb::id(), n: 0 }
    }
    fn raw(&self, p: &J) -> (i128, i128) {
        let (i, j, e) = (p.a()[0].i() as i128, p.a()[1].i() as i128, self.e);
        (e.a as i128 * i + e.b as i128 * j + e.tx as i128, e.c as i128 * i + e.d as i128 * j + e.ty as i128)
    }
    /// an observed point, good to `t` units
    fn obs(&self, c: &Coordinate, t: f64) -> J {
        let e = self.e;
        let o = |x: f64, q: i64| J::F(x / e.s() - q as f64);
        if !(c.x.is_finite() && c.y.is_finite()) { return ja![BAD]; }
        J::O(vec![("map".into(), ja![e.a, e.b, e.c, e.d]), ("x".into(), o(c.x, e.tx)), ("y".into(), o(c.y, e.ty)), ("tx".into(), J::F(t))])
    }
    /// largest coordinate, largest difference of two points, largest distance from the common middle,
    /// determinant, all in units of the embedding
    fn sizes(&self, a: &[J]) -> (f64, f64, f64, f64) {
        let q: Vec<(i128, i128)> = a[..4].iter().map(|p| self.raw(p)).collect();
        let f = |x: i128| x.unsigned_abs() as f64;
        let m = q.iter().map(|p| f(p.0).max(f(p.1))).fold(1.0, f64::max);
        let mut d = 1f64;
        for x in &q { for y in &q { d = d.max(f(x.0 - y.0)).max(f(x.1 - y.1)); } }
        let w = (q[1].0 - q[0].0) * (q[3].1 - q[2].1) - (q[1].1 - q[0].1) * (q[3].0 - q[2].0);
        (m, d, 2.0 * d, f(w).max(1e-300))
    }
    /// tolerances for the extended, the conditioned, and the plain computation
    fn tols(&self, a: &[J]) -> (f64, f64, f64) {
        let (m, d, l, w) = self.sizes(a);
        // the true point is at most this far from the origin
        let far = m + d * (1.0 + d * d / w);
        let dd = if m * m < p2(98) && d * d * m < p2(94) { p2(-50) * far } else { p2(-94) * d * m * m / w + p2(-50) * far };
        // moving the middle of the segments to the origin is exact here, so only their extent matters
        let fp = p2(-47) * d * l * l / w + p2(-50) * far;
        let plain = p2(-47) * d * m * m / w + p2(-49) * far;
        (dd, fp, plain)
    }
}
impl Sut for C27 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = v; self.e = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        // where the points do not fit, or line up beyond what two doubles resolve, the lattice itself
        self.e = if self.cur >= self.full && !spread(&self.embs[self.cur], a) { Emb::id() } else { self.embs[self.cur] };
        let e = self.e;
        let q: Vec<Coordinate> = (0..4).map(|i| pt(&e, &a[i])).collect();
        self.n += 1;
        let (dd, fp, plain) = self.tols(a);
        let same = |x: &Option<Coordinate>, y: &Option<Coordinate>| match (x, y) { (None, None) => true, (Some(x), Some(y)) => x.x == y.x && x.y == y.y, _ => false };
        match op {
            "lines" => {
                let none = J::s("none");
                let main = Intersection::intersection(&q[0], &q[1], &q[2], &q[3]);
                let ext = CGAlgorithmsDD::intersection(&q[0], &q[1], &q[2], &q[3]);
                let seg = LineSegment::new_from_coordinates(&q[0], &q[1]).line_intersection(LineSegment::new_from_coordinates(&q[2], &q[3]));
                if !same(&main, &seg) || main.is_some() != ext.is_some() { return ja![BAD, 1]; }
                let mut out = vec![];
                for r in [&main, &ext] { out.push(match r { None => none.clone(), Some(c) => self.obs(c, dd) }); }
                // plain floating point arithmetic only settles parallelism where it is exact
                for (r, t) in [(Intersection::intersection_fp(&q[0], &q[1], &q[2], &q[3]), fp), (HCoordinate::intersection(&q[0], &q[1], &q[2], &q[3]), plain)] {
                    out.push(match r { None => if e.exact || t < 1e-3 { none.clone() } else { J::s("skip") }, Some(c) => if e.exact || t < 1e-3 { self.obs(&c, t) } else { J::s("skip") } });
                }
                // as homogeneous coordinates: points, the lines through them, and where those meet
                let hl = |x: &Coordinate, y: &Coordinate, k: usize| match k % 3 {
                    0 => HCoordinate::new_with_coordinates(x, y),
                    1 => HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinate(x), &HCoordinate::new_with_xy(y.x, y.y)),
                    _ => HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_xyw(x.x * 2.0, x.y * 2.0, 2.0), &HCoordinate::new_with_coordinate(y)),
                };
                let h = match self.n % 4 { 3 => HCoordinate::new_with_coordinates_4(&q[0], &q[1], &q[2], &q[3]), k => HCoordinate::new_with_hcoordinates(&hl(&q[0], &q[1], k), &hl(&q[2], &q[3], self.n / 4)) };
                let c = h.get_coordinate();
                let eq = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
                if !eq(c.x, h.get_x()) || !eq(c.y, h.get_y()) || c.x.is_infinite() || c.y.is_infinite() { return ja![BAD, 2]; }
                // at a parallel pair at least one of the two ordinates is missing
                out.push(if !(e.exact || plain < 1e-3) { J::s("skip") } else if c.x.is_nan() || c.y.is_nan() { none.clone() } else { self.obs(&c, plain) });
                // the specification has one answer for all of them
                let bad = out.iter().position(|x| *x == J::I(BAD));
                if bad.is_some() { return ja![BAD, 3]; }
                J::O(vec![("all".into(), J::A(out))])
            }
            "linesegment" => {
                match Intersection::line_segment(&q[0], &q[1], &q[2], &q[3]) {
                    None => J::s("none"),
                    Some(c) => if (c.x == q[2].x && c.y == q[2].y) || (c.x == q[3].x && c.y == q[3].y) {
                        // an end itself, or a point that rounds to it
                        J::O(vec![("either".into(), J::A(vec![unpt(&e, &c), self.obs(&c, dd)]))])
                    } else { self.obs(&c, dd) },
                }
            }
            "cut" => {
                let g = a[4].i();
                let mut li = RobustLineIntersector::default();
                let mut t = dd;
                let single = g == 0 && self.n % 3 == 0;
                if g > 0 {
                    if !e.exact { return J::s("skip"); }
                    li.set_precision_model(PrecisionModel::new_with_scale(g as f64 / e.s()));
                } else if single {
                    if e.k.abs() > 60 { return J::s("skip"); }
                    li.set_precision_model(PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle));
                    t += p2(-23) * self.sizes(a).0;
                } else if self.n % 3 == 1 { li.set_precision_model(PrecisionModel::default()); }
                li.compute_intersection_4(&q[0], &q[1], &q[2], &q[3]);
                if li.verif_result() != 1 || !li.verif_is_proper() { return J::s("no proper point"); }
                let c = li.get_intersection(0);
                if single && ((c.x as f32) as f64 != c.x || (c.y as f32) as f64 != c.y) { return ja![BAD, 4]; }
                if g == 0 { return self.obs(&c, t); }
                let idx = |x: f64, o: i64| { let y = x / e.s() * g as f64; let j = y.round(); if (y - j).abs() <= 1e-9 * (1.0 + y.abs() * 1e-6) { j as i64 - o * g } else { BAD } };
                let (u, v) = (idx(c.x, e.tx), idx(c.y, e.ty));
                if u.abs() > 1 << 40 || v.abs() > 1 << 40 { return ja![BAD, 5]; }
                ja![(e.d * u - e.b * v) * e.det(), (-e.c * u + e.a * v) * e.det()]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let cut = r.chance(1, 3);
        let m = if cut { *r.pick(&[3, 9, 30, 60]) } else { *r.pick(&[2, 8, 40, 150]) };
        let rp = |r: &mut Rng| (r.range(-m, m), r.range(-m, m));
        let (a, b, c) = (rp(r), rp(r), rp(r));
        let d = match r.below(6) {
            0 => { let k = r.range(-2, 2); (c.0 + k * (b.0 - a.0), c.1 + k * (b.1 - a.1)) } // parallel
            1 => (c.0 + b.0 - a.0 + r.range(-1, 1), c.1 + b.1 - a.1 + r.range(-1, 1)), // nearly so
            2 => (c.0 + b.1 - a.1, c.1 - b.0 + a.0), // perpendicular
            3 | 4 if cut => (a.0 + b.0 - c.0 + r.range(-2, 2), a.1 + b.1 - c.1 + r.range(-2, 2)), // crossing
            _ => rp(r),
        };
        let ok = |p: (i64, i64)| p.0.abs() <= 240 && p.1.abs() <= 240;
        let d = if ok(d) { d } else { rp(r) };
        let j = |p: (i64, i64)| ja![p.0, p.1];
        let v = ja![j(a), j(b), j(c), j(d)];
        if cut { return vec![("cut".into(), ja![j(a), j(b), j(c), j(d), r.range(0, 7)])]; }
        vec![("lines".into(), v.clone()), ("linesegment".into(), v)]
    }
}
