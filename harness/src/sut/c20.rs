//! C20: operations of line segments.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C20 { embs: Vec<Emb>, e: Emb, r: Rng, rows: Vec<Vec<f64>>, v: usize }
impl C20 {
    pub fn new(seed: u64, thorough: bool) -> C20 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed ^ 20, 14 * k);
        embs.extend(similar_big(seed ^ 20, 6 * k));
        // ordinates of very different sizes, a thousand roundings apart
        let mut r = Rng::new(seed ^ 2020);
        let rows = (0..embs.len()).map(|_| {
            let j = *r.pick(&[0, 0, -60, 60, -300, 300]);
            let mut t: Vec<f64> = vec![];
            while t.len() < 25 {
                let x = (r.f01() - 0.5) * p2(r.range(0, 40) as i32);
                if t.iter().all(|y| (x - y).abs() > 0.01) { t.push(x); }
            }
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.iter().map(|x| x * p2(j)).collect()
        }).collect();
        C20 { e: Emb::id(), embs, r: Rng::new(seed), rows, v: 0 }
    }
    fn seg(&mut self, p: &J, q: &J) -> LineSegment {
        let (a, b) = (pt(&self.e, p), pt(&self.e, q));
        match self.r.below(6) {
            0 => LineSegment::new_from_xy(a.x, a.y, b.x, b.y),
            1 => { let mut s = LineSegment::default(); s.set_coordinates(&a, &b); s }
            2 => { let mut s = LineSegment::new_from_coordinates(&b, &a); s.reverse(); s }
            3 => { let t = LineSegment::new_from_coordinates(&a, &b); LineSegment::new_from_line_segment(&t) }
            4 => { let mut s = LineSegment::new_from_xy(1., 2., 3., 4.); s.set_coordinates_from_line_segment(LineSegment::new_from_coordinates(&a, &b)); s }
            _ => LineSegment::new_from_coordinates(&a, &b),
        }
    }
    fn unf(&self, c: &Coordinate) -> J {
        if !self.e.exact { return J::s("inside"); }
        let (x, y) = self.e.unf(c.x, c.y);
        J::A(vec![J::F(x), J::F(y)])
    }
    /// the lattice ordinates of a point under a table: the nearest ones, no further than rounding
    fn row(&self, c: &Coordinate) -> J {
        let t = &self.rows[self.v];
        let big = t.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        let f = |x: f64| -> i64 {
            let k = (0..25).min_by(|i, j| (t[*i] - x).abs().partial_cmp(&(t[*j] - x).abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
            if (t[k] - x).abs() <= 16.0 * f64::EPSILON * big { k as i64 - 12 } else { BAD }
        };
        ja![f(c.x), f(c.y)]
    }
    fn len(&self, x: f64) -> J { J::F(x / self.e.s()) }
}
fn dist(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> f64 {
    let (dx, dy, px, py) = (b.x - a.x, b.y - a.y, p.x - a.x, p.y - a.y);
    let l = dx * dx + dy * dy;
    let t = if l == 0. { 0. } else { ((px * dx + py * dy) / l).max(0.).min(1.) };
    f64::hypot(px - t * dx, py - t * dy)
}

impl Sut for C20 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.e = self.embs[v]; self.v = v; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.e;
        let s = self.seg(&a[0], &a[1]);
        // the left side is the right side after a reflection of the plane
        let hand = e.det() as f64;
        match op {
            "point" => {
                let p = Coordinate::new_xyz(pt(&e, &a[2]).x, pt(&e, &a[2]).y, 7.5);
                let f = s.projection_factor(&p);
                let foot = s.project_coordinate(&p);
                if e.exact && !f.is_nan() { let g = s.project_coordinate_with_projection_factor(&p, f); if g.distance(&foot) > 1e-9 * e.s() { return J::I(BAD); } }
                J::A(vec![J::F(f), J::F(s.segment_fraction(&p)), self.unf(&foot), self.unf(&s.closest_point(&p)), if e.exact { self.unf(&s.reflect(&p)) } else { J::s("skip") }])
            }
            "own" => {
                let m = s.mid_point();
                let n = LineSegment::mid_point_coordinates(&s.p0, &s.p1);
                if m.x != n.x || m.y != n.y || !s.get_coordinate(0).equals_2d(&s.p0) || !s.get_coordinate(1).equals_2d(&s.p1) { return J::I(BAD); }
                let (g, l) = (s.angle(), s.get_length());
                // the displacement from length and angle
                let z = Coordinate::new_xy(l * g.cos(), l * g.sin());
                let d = (z.x / e.s(), z.y / e.s());
                let det = e.det() as f64;
                let v = ((e.d as f64 * d.0 - e.b as f64 * d.1) / det, (-e.c as f64 * d.0 + e.a as f64 * d.1) / det);
                let near = |x: f64, y: f64| { let w = x.round(); if (x - w).abs() < 1e-9 * (1. + y) { J::I(w as i64) } else { J::I(BAD) } };
                let plain = e.a == 1 && e.d == 1;
                let (lo, hi) = (e.inv(s.min_x(), s.min_y()), e.inv(s.max_x(), s.max_y()));
                let sk = J::s("skip");
                let (h, w) = if e.a == 0 { (s.is_vertical(), s.is_horizontal()) } else { (s.is_horizontal(), s.is_vertical()) };
                let o = |x: Option<(i64, i64)>, k: usize| match x { Some(p) => J::I(if k == 0 { p.0 } else { p.1 }), None => J::I(BAD) };
                J::A(vec![self.unf(&m), self.len(l), J::A(vec![near(v.0, l / e.s()), near(v.1, l / e.s())]), bit(h), bit(w),
                    if plain { o(lo, 0) } else { sk.clone() }, if plain { o(hi, 0) } else { sk.clone() }, if plain { o(lo, 1) } else { sk.clone() }, if plain { o(hi, 1) } else { sk }])
            }
            "along" => self.unf(&s.point_along(a[2].f() / a[3].f())),
            "aside" => self.unf(&s.point_along_offset(a[2].f() / a[3].f(), hand * a[4].f() / 4.0 * s.p0.distance(&s.p1))),
            "shift" => { let t = s.offset(hand * a[2].f() / 4.0 * s.p0.distance(&s.p1)); J::A(vec![self.unf(&t.p0), self.unf(&t.p1)]) }
            "part" => {
                let t = self.seg(&a[2], &a[3]);
                match s.project_line_segment(&t) { None => J::s("none"), Some(g) => J::A(vec![self.unf(&g.p0), self.unf(&g.p1)]) }
            }
            "pair" => {
                let t = self.seg(&a[2], &a[3]);
                let v = s.closest_points(&t);
                if v.len() != 2 || !e.exact { return J::A(vec![J::from(v.len()), J::s("skip"), J::s("skip"), J::s("skip")]); }
                J::A(vec![J::I(2), self.len(v[0].distance(&v[1])), self.len(dist(&v[0], &s.p0, &s.p1)), self.len(dist(&v[1], &t.p0, &t.p1))])
            }
            "meet" => {
                let t = self.seg(&a[2], &a[3]);
                match s.intersection(&t) {
                    None => J::I(0),
                    Some(p) => if !e.exact || (dist(&p, &s.p0, &s.p1) < 1e-8 * e.s() && dist(&p, &t.p0, &t.p1) < 1e-8 * e.s()) { J::I(1) } else { J::I(BAD) },
                }
            }
            "straight" => {
                let t = self.rows[self.v].clone();
                let q = |p: &J| Coordinate::new_xy(t[(p.a()[0].i() + 12) as usize], t[(p.a()[1].i() + 12) as usize]);
                let s = LineSegment::new_from_coordinates(&q(&a[0]), &q(&a[1]));
                let p = q(&a[2]);
                let part = match s.project_line_segment(&LineSegment::new_from_coordinates(&p, &q(&a[3]))) { None => J::s("none"), Some(g) => J::A(vec![self.row(&g.p0), self.row(&g.p1)]) };
                // beyond the ends either one will do when rounding cannot tell which is nearer
                let (x, y) = (f64::hypot(p.x - s.p0.x, p.y - s.p0.y), f64::hypot(p.x - s.p1.x, p.y - s.p1.y));
                let f = self.row(&s.project_coordinate(&p));
                let near = if (x - y).abs() <= 4.0 * f64::EPSILON * x { J::s("skip") } else { self.row(&s.closest_point(&p)) };
                ja![f, near, part]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 4, 9, 12]);
        let (p, q) = (rpt(r, m), rpt(r, m));
        // points on and around the line as well
        let k = r.range(-2, 3);
        let on = ja![p.a()[0].i() + k * (q.a()[0].i() - p.a()[0].i()), p.a()[1].i() + k * (q.a()[1].i() - p.a()[1].i())];
        let w = if r.chance(1, 3) && m < 9 { on } else { rpt(r, m) };
        let z = rpt(r, m);
        if r.chance(1, 9) {
            let (k, u, x, y) = (r.chance(1, 2), r.range(-12, 12), r.range(-12, 12), r.range(-12, 12));
            let on = |x: i64| if k { ja![x, u] } else { ja![u, x] };
            return vec![("straight".into(), ja![on(x), on(y), rpt(r, 12), rpt(r, 12)])];
        }
        vec![match r.below(8) {
            0 | 1 => ("point".into(), ja![p, q, w]),
            2 => ("own".into(), ja![p, q]),
            3 => ("along".into(), ja![p, q, r.range(-9, 17), 8]),
            4 => ("aside".into(), ja![p, q, r.range(-9, 17), 8, r.range(-9, 9)]),
            5 => ("shift".into(), ja![p, q, r.range(-9, 9)]),
            6 => ("part".into(), ja![p, q, w, z]),
            _ => if r.chance(1, 2) || p == q || w == z { ("pair".into(), ja![p, q, w, z]) } else { ("meet".into(), ja![p, q, w, z]) },
        }]
    }
}
