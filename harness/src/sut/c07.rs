//! C07: distances.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C07 { embs: Vec<Emb>, cur: Emb }

impl C07 {
    pub fn new(seed: u64, thorough: bool) -> C07 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 12 * k);
        embs.extend(similar_big(seed, 12 * k));
        C07 { embs, cur: Emb::id() }
    }
    fn pt3(&self, p: &J) -> Coordinate {
        let v = p.a();
        let (x, y) = self.cur.xy(v[0].i(), v[1].i());
        Coordinate::new_xyz(x, y, (v[2].i() + self.cur.tx) as f64 * self.cur.s())
    }
    fn len(&self, a: f64) -> f64 { a / self.cur.s() }
    fn all(&self, v: &[f64]) -> J {
        if v[0].is_nan() && v.iter().all(|x| x.is_nan()) { return J::F(v[0]); }
        if v.iter().all(|x| (x - v[0]).abs() <= 1e-9 * v[0].abs()) { J::F(self.len(v[0])) } else { J::I(BAD) }
    }
}

impl Sut for C07 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.cur;
        match op {
            "ss" => {
                let q: Vec<Coordinate> = a.iter().map(|p| pt(&e, p)).collect();
                let (s, t) = (LineSegment::new_from_coordinates(&q[0], &q[1]), LineSegment::new_from_coordinates(&q[2], &q[3]));
                self.all(&[Distance::segment_to_segment(&q[0], &q[1], &q[2], &q[3]), s.distance_line_segment(&t)])
            }
            "ps" => {
                let q: Vec<Coordinate> = a.iter().map(|p| pt(&e, p)).collect();
                self.all(&[Distance::point_to_segment(&q[0], &q[1], &q[2]), LineSegment::new_from_coordinates(&q[1], &q[2]).distance_coordinate(&q[0])])
            }
            "pl" => J::F(self.len(Distance::point_to_segment_string(&pt(&e, &a[0]), &pts(&e, &a[1])))),
            // distance to the line, and the side carried by the oriented variants (as a sign)
            "perp" => {
                let q: Vec<Coordinate> = a.iter().map(|p| pt(&e, p)).collect();
                let s = LineSegment::new_from_coordinates(&q[1], &q[2]);
                let d = s.distance_perpendicular(&q[0]);
                let o = s.distance_perpendicular_oriented(&q[0]);
                let mut v = vec![d, o.abs()];
                let mut side = if o > 0.0 { 1 } else if o < 0.0 { -1 } else { 0 };
                if q[1].x == q[2].x && q[1].y == q[2].y { side = if o < 0.0 { BAD } else { 0 }; } else {
                    let g = Distance::point_to_line_perpendicular_signed(&q[0], &q[1], &q[2]);
                    v.push(Distance::point_to_line_perpendicular(&q[0], &q[1], &q[2]));
                    v.push(g.abs());
                    // documented the other way round: negative on the left
                    let gs = if g > 0.0 { -1 } else if g < 0.0 { 1 } else { 0 };
                    if gs != side { side = BAD; }
                }
                J::A(vec![self.all(&v), J::I(if side == BAD { BAD } else { side * e.det() })])
            }
            "ss3" | "ps3" | "pp3" if !e.exact => J::s("skip"),
            "ss3" => {
                let q: Vec<Coordinate> = a.iter().map(|p| self.pt3(p)).collect();
                J::F(self.len(CGAlgorithms3D::distance_segment_segment(&q[0], &q[1], &q[2], &q[3])))
            }
            "ps3" => {
                let q: Vec<Coordinate> = a.iter().map(|p| self.pt3(p)).collect();
                J::F(self.len(CGAlgorithms3D::distance_point_segment(&q[0], &q[1], &q[2])))
            }
            "pp3" => {
                let q: Vec<Coordinate> = a.iter().map(|p| self.pt3(p)).collect();
                let flat = Coordinate::new_xy(q[1].x, q[1].y);
                let f = CGAlgorithms3D::distance(&q[0], &flat);
                if f != q[0].distance(&q[1]) { return J::I(BAD); }
                self.all(&[CGAlgorithms3D::distance(&q[0], &q[1]), q[0].distance_3d(&q[1])])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 4, 6, 12]);
        let rp3 = |r: &mut Rng| ja![r.range(-m, m), r.range(-m, m), r.range(-m, m)];
        vec![match r.below(6) {
            0 | 1 => ("ss".into(), ja![rpt(r, m), rpt(r, m), rpt(r, m), rpt(r, m)]),
            2 => ("perp".into(), ja![rpt(r, m), rpt(r, m), rpt(r, m)]),
            3 => { let n = size(r, 0, 9); ("pl".into(), ja![rpt(r, m), J::A((0..n).map(|_| rpt(r, m)).collect())]) }
            4 => ("ps3".into(), ja![rp3(r), rp3(r), rp3(r)]),
            _ => {
                let m = m.min(4);
                let rp3 = |r: &mut Rng| ja![r.range(-m, m), r.range(-m, m), r.range(-m, m)];
                ("ss3".into(), ja![rp3(r), rp3(r), rp3(r), rp3(r)])
            }
        }]
    }
}
