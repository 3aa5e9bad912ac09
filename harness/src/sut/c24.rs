//! C24: vectors and linear systems.
use super::util::*;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C24 { scales: Vec<i32>, s: f64, r: Rng, v: Vector2D }
impl C24 {
    pub fn new(seed: u64, _t: bool) -> C24 {
        C24 { scales: vec![0, 0, -1, 5, -30, 40, 101, -101, 620, -620, -900], s: 1.0, r: Rng::new(seed), v: Vector2D::default() }
    }
    fn co(&self, p: &J) -> Coordinate {
        let v = p.ints();
        let mut c = Coordinate::new_xy(v[0] as f64 * self.s, v[1] as f64 * self.s);
        if v.len() > 2 { c.set_z(v[2] as f64 * self.s); }
        c
    }
    fn vec(&mut self, p: &J) -> Vector2D {
        let c = self.co(p);
        let o = Coordinate::new_xy(3.0 * self.s, -7.0 * self.s);
        let e = Coordinate::new_xy(c.x + o.x, c.y + o.y);
        match self.r.below(8) {
            0 => Vector2D::new_from_xy(c.x, c.y),
            1 => Vector2D::create_from_xy(c.x, c.y),
            2 => Vector2D::new_from_coordinate(&c),
            3 => Vector2D::create_from_coodinate(&c),
            4 => Vector2D::new_from_coordinate_from_to(&o, &e),
            5 => Vector2D::create_from_coordinate_from_to(&o, &e),
            6 => Vector2D::new_from_vector_2d(&Vector2D::new_from_xy(c.x, c.y)),
            _ => Vector2D::create_from_vector_2d(&Vector2D::new_from_xy(c.x, c.y)),
        }
    }
    fn v3(&mut self, p: &J) -> Vector3D {
        let c = self.co(p);
        let mut o = Coordinate::new_xy(3.0 * self.s, -7.0 * self.s);
        o.set_z(self.s);
        let mut e = Coordinate::new_xy(c.x + o.x, c.y + o.y);
        e.set_z(c.get_z() + self.s);
        match self.r.below(5) {
            0 => Vector3D::new_from_coordinate(&c),
            1 => Vector3D::create_from_coordinate(&c),
            2 => Vector3D::new_from_to_coordinates(&o, &e),
            3 => Vector3D::new_from_xyz(c.x, c.y, c.get_z()),
            _ => Vector3D::create_from_xyz(c.x, c.y, c.get_z()),
        }
    }
    fn o2(&self, v: &Vector2D) -> J { ja![v.get_x() / self.s, v.get_y() / self.s] }
    fn o3(&self, v: &Vector3D) -> J { ja![v.get_x() / self.s, v.get_y() / self.s, v.get_z() / self.s] }
}

impl Sut for C24 {
    fn variants(&self) -> usize { self.scales.len() }
    fn begin(&mut self, v: usize) { self.s = p2(self.scales[v]); }
    fn describe(&self, v: usize) -> String { format!("scale 2^{}", self.scales[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let s = self.s;
        // squares of the ordinates leave the range of f64: only lengths, angles and linear operations are judged
        let wide = s > p2(250) || s < p2(-250);
        let sq = |x: J| if wide { J::s("skip") } else { x };
        match op {
            "space" | "dot4" | "solve" | "dust" | "odd" if wide => J::s("skip"),
            "up" => {
                let o = a[0].str();
                let d = if a.len() > 1 && matches!(a[1], J::A(_)) { self.vec(&a[1]) } else { Vector2D::default() };
                let (keep, keepd) = (self.v, d);
                let n = match o {
                    "set" => d,
                    "add" => self.v.add(&d),
                    "sub" => self.v.subtract(&d),
                    "mul" => self.v.multiply(a[1].f()),
                    "neg" => self.v.negate(),
                    "quarter" => match self.v.rotate_by_quarter_circle(a[1].i() as i32) { Some(x) => x, None => return J::s("none") },
                    "move" => { let c = self.v.translate(&d.to_coordinate()); Vector2D::new_from_coordinate(&c) }
                    "from" => Vector2D::new_from_coordinate_from_to(&d.to_coordinate(), &self.v.to_coordinate()),
                    x => panic!("harness: up {}", x),
                };
                if !keep.equals(&self.v) || !keepd.equals(&d) { return J::I(BAD); }
                self.v = n;
                self.o2(&n)
            }
            "one" => {
                let v = self.vec(&a[0]);
                let c = v.to_coordinate();
                let n = v.normalize();
                ja![v.length() / s, sq(J::F(v.length_squared() / s / s)), ja![n.get_x(), n.get_y()], self.o2(&v.negate()), v.angle(), ja![c.x / s, c.y / s], ja![v.get_component(0) / s, v.get_component(1) / s]]
            }
            "pair" => {
                let (u, v) = (self.vec(&a[0]), self.vec(&a[1]));
                let c = u.translate(&v.to_coordinate());
                let at = u.angle_to(&v);
                let ab = u.angle_vector_2d(&v);
                let pi = std::f64::consts::PI;
                if !(at > -pi && at <= pi) || !(ab >= 0.0 && ab <= pi) { return J::I(BAD); }
                ja![self.o2(&u.add(&v)), self.o2(&u.subtract(&v)), sq(J::F(u.dot(&v) / s / s)), u.distance(&v) / s, sq(bit(u.is_parallel(&v))), bit(u.equals(&v)), ab, at, self.o2(&u.average(&v)), ja![c.x / s, c.y / s]]
            }
            "close" => {
                let (p, q, t, b) = (a[0].f(), a[1].f(), a[2].f(), p2(a[3].i() as i32));
                let u = Vector2D::new_from_xy((b + p) * s, (b + q) * s);
                let v = Vector2D::new_from_xy((b + t) * s, (b + (q + t - p)) * s);
                if wide { J::s("skip") } else { J::A(vec![bit(u.is_parallel(&v)), bit(v.is_parallel(&u))]) }
            }
            "scale" => { let u = self.vec(&a[0]); let f = a[1].f() / a[2].f(); ja![self.o2(&u.multiply(f)), self.o2(&u.divide(f))] }
            "wsum" => { let (u, v) = (self.vec(&a[0]), self.vec(&a[1])); self.o2(&u.weighted_sum(&v, a[2].f() / a[3].f())) }
            "turn" => {
                let u = self.vec(&a[0]);
                let k = a[1].i();
                ja![match u.rotate_by_quarter_circle(k as i32) { Some(q) => self.o2(&q), None => J::s("none") }, self.o2(&u.rotate(k as f64 * std::f64::consts::PI / 4.0))]
            }
            "space" => {
                let (u, v) = (self.v3(&a[0]), self.v3(&a[1]));
                let (c, d) = (self.co(&a[0]), self.co(&a[1]));
                let n = u.normalize();
                let m = Vector3D::normalize_coordinate(&c);
                ja![self.o3(&u.add(&v)), self.o3(&u.subtract(&v)), u.dot(&v) / s / s, Vector3D::dot_2(&c, &d) / s / s, u.length() / s, Vector3D::length_of_coordinate(&c) / s,
                    ja![n.get_x(), n.get_y(), n.get_z()], ja![m.x, m.y, m.get_z()], self.o3(&u.divide(a[2].f())), bit(u.equals(&v)), self.o3(&u)]
            }
            "dot4" => J::F(Vector3D::dot_4(&self.co(&a[0]), &self.co(&a[1]), &self.co(&a[2]), &self.co(&a[3])) / s / s),
            "solve" | "dust" | "odd" => {
                let mut m: Vec<Vec<f64>> = a[0].a().iter().map(|r| r.ints().iter().map(|x| *x as f64 * s).collect()).collect();
                let t = p2(*self.r.pick(&[0, 3, -8]));
                let mut b: Vec<f64> = a[1].ints().iter().map(|x| *x as f64 * t).collect();
                if op == "dust" { for w in m.iter_mut().flatten() { if *w == 0.0 { *w = s * p2(-60 - self.r.range(0, 40) as i32); } } }
                if op != "odd" {
                    // the order of the equations is irrelevant
                    for _ in 0..self.r.below(3) { let (i, j) = (self.r.below(b.len()), self.r.below(b.len())); m.swap(i, j); b.swap(i, j); }
                    // and so is a power of two multiplied to one of them
                    if self.r.chance(1, 3) { let i = self.r.below(b.len()); let f = p2(self.r.range(-3, 3) as i32); for x in m[i].iter_mut() { *x *= f; } b[i] *= f; }
                }
                if m.is_empty() { return J::s("skip"); }
                match Matrix::solve(&mut m, &mut b) { None => J::s("none"), Some(x) => J::A(x.iter().map(|v| J::F(v / t * s)).collect()) }
            }
            "rows" => {
                let mut m: Vec<Vec<f64>> = a[0].a().iter().map(|r| r.ints().iter().map(|x| *x as f64).collect()).collect();
                let mut b: Vec<f64> = a[1].ints().iter().map(|x| *x as f64).collect();
                Matrix::swap_rows_2d(&mut m, a[2].u(), a[3].u());
                Matrix::swap_rows_1d(&mut b, a[2].u(), a[3].u());
                ja![J::A(m.iter().map(|r| J::A(r.iter().map(|x| J::F(*x)).collect())).collect()), J::A(b.iter().map(|x| J::F(*x)).collect())]
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 4, 30, 1000]);
        let q = |r: &mut Rng| ja![r.range(-m, m), r.range(-m, m), r.range(-m, m)];
        match r.below(8) {
            0 => {
                let mut v = vec![("up".to_string(), ja!["set", rpt(r, m)])];
                for _ in 0..r.range(1, 8) {
                    let w = match r.below(8) { 0 => ja!["neg"], 1 => ja!["mul", r.range(-3, 3)], 2 | 3 => ja!["quarter", r.range(-9, 9)], k => ja![["add", "sub", "move", "from"][k - 4], rpt(r, m)] };
                    v.push(("up".to_string(), w));
                }
                v
            }
            1 => { let u = rpt(r, m); let k = r.range(-3, 3); let v = if r.chance(1, 3) { ja![k * u.a()[0].i(), k * u.a()[1].i()] } else { rpt(r, m) }; vec![("pair".into(), ja![u.clone(), v]), ("one".into(), ja![u])] }
            2 if r.chance(1, 3) => vec![("close".into(), ja![r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(0, 48)])],
            2 => vec![("wsum".into(), ja![rpt(r, m), rpt(r, m), r.range(-5, 9), r.range(1, 9)]), ("scale".into(), ja![rpt(r, m), r.range(-9, 9), r.range(1, 9)]), ("turn".into(), ja![rpt(r, m), r.range(-20, 20)])],
            3 => vec![("space".into(), ja![q(r), q(r), r.range(1, 9)]), ("dot4".into(), ja![q(r), q(r), q(r), q(r)])],
            _ => {
                let n = r.range(1, 6);
                let e = if n > 4 { 1 } else { *r.pick(&[1, 1, 3, 9]) };
                let z = r.range(0, 3) as u64;
                let mut a: Vec<Vec<i64>> = (0..n).map(|_| (0..n).map(|_| if r.chance(z, 5) { 0 } else { r.range(-e, e) }).collect()).collect();
                if n > 1 && r.chance(1, 6) { let (i, j) = (r.below(n as usize), r.below(n as usize)); a[i] = a[j].clone(); }
                let b: Vec<J> = (0..n).map(|_| J::I(r.range(-9, 9))).collect();
                let op = if r.chance(1, 3) { "dust" } else { "solve" };
                vec![(op.into(), ja![J::A(a.into_iter().map(|w| J::A(w.into_iter().map(J::I).collect())).collect()), J::A(b)])]
            }
        }
    }
}
