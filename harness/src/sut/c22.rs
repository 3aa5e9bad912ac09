//! C22: angles.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;
use std::f64::consts::PI;

pub struct C22 { embs: Vec<Emb>, e: Emb }
impl C22 {
    pub fn new(seed: u64, thorough: bool) -> C22 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed ^ 22, 10 * k);
        embs.extend(similar_big(seed ^ 22, 6 * k));
        C22 { e: Emb::id(), embs }
    }
}
fn rad(n: &J) -> f64 { n.f() / 12.0 * PI }
/// an angle that has to be in the half open range (-pi, pi]
fn signed(a: f64) -> J { if a > -PI && a <= PI { J::F(a) } else { J::I(BAD) } }
fn positive(a: f64) -> J { if a >= 0.0 && a < 2.0 * PI { J::F(a) } else { J::I(BAD) } }
fn plain(a: f64) -> J { if a >= 0.0 && a <= PI { J::F(a) } else { J::I(BAD) } }

impl Sut for C22 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.e = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, x: &[J]) -> J {
        let e = self.e;
        let hand = e.det() as f64;
        match op {
            "vec" => {
                // two vectors from a common tail
                let (t, a, b) = (e.pt(0, 0), pt(&e, &x[0]), pt(&e, &x[1]));
                // the angle as the specification's plane sees it
                let un = |g: f64| {
                    let (c, s) = (g.cos(), g.sin());
                    let det = e.det() as f64;
                    let (p, q) = ((e.d as f64 * c - e.b as f64 * s) / det, (-e.c as f64 * c + e.a as f64 * s) / det);
                    q.atan2(p)
                };
                let d = Angle::angle_coordinates(&t, &a);
                let d2 = Angle::angle_coordinate(&Coordinate::new_xy(a.x - t.x, a.y - t.y));
                if signed(d) == J::I(BAD) || signed(d2) == J::I(BAD) || (d - d2).abs() > 1e-12 { return J::I(BAD); }
                let o = signed(Angle::angle_between_oriented(&a, &t, &b));
                let i = positive(Angle::interior_angle(&a, &t, &b));
                let mir = |v: J| match v { J::F(z) => J::F(hand * z), w => w };
                let bi = Angle::bisector(&a, &t, &b);
                if signed(bi) == J::I(BAD) { return J::I(BAD); }
                let ub = un(bi);
                ja![un(d), mir(o), plain(Angle::angle_between(&a, &t, &b)), mir(i),
                    ja![bit(Angle::is_acute(&a, &t, &b)), bit(Angle::is_obtuse(&a, &t, &b))], 2.0 * ub, bit((bi - d).cos() > -1e-9)]
            }
            "norm" => {
                let a = rad(&x[0]);
                let g = Angle::to_degrees(a);
                let h = Angle::to_radians(g);
                if (h - a).abs() > 1e-12 * (1.0 + a.abs()) { return J::I(BAD); }
                let (p, q) = (signed(Angle::normalize(a)), positive(Angle::normalize_positive(a)));
                // normalising again changes nothing; both describe the same direction
                for z in [&p, &q] { if let J::F(z) = z {
                    let again = if z.abs() <= PI && *z > -PI { Angle::normalize(*z) } else { *z };
                    if again != *z || (*z >= 0.0 && Angle::normalize_positive(*z) != *z) { return J::I(BAD); }
                } }
                if x[0].i().abs() <= 12 && x[0].i() != -12 { if let J::F(z) = &p { if *z != a { return J::I(BAD); } } }
                if x[0].i() >= 0 && x[0].i() < 24 { if let J::F(z) = &q { if *z != a { return J::I(BAD); } } }
                ja![p, q, g, Angle::to_radians(15.0 * x[0].f())]
            }
            "many" => {
                let a = rad(&x[0]);
                let t = a.abs() * p2(-50) + 1e-12;
                let f = |z: J| match z { J::F(z) => tol(z, t), z => z };
                ja![f(signed(Angle::normalize(a))), f(positive(Angle::normalize_positive(a)))]
            }
            "far" => {
                let a = x[0].f() * p2(x[1].i() as i32);
                let f = |z: J| match z { J::F(_) => J::s("in"), z => z };
                ja![f(signed(Angle::normalize(a))), f(positive(Angle::normalize_positive(a)))]
            }
            "tiny" => {
                let a = x[0].f() * 2.0 * PI + x[1].f() * p2(-45 - x[2].i() as i32);
                ja![signed(Angle::normalize(a)), positive(Angle::normalize_positive(a))]
            }
            "aturn" => {
                let (a, w) = (rad(&x[0]), p2(-(x[2].i() as i32)));
                let b = a + x[1].f() * w;
                let d = if a.abs() > 3.0 || b.abs() > 3.0 { J::s("skip") } else { tol(Angle::diff(a, b) / w, 4e-15 / w) };
                ja![Angle::get_turn(a, b) as i64, Angle::get_turn(b, a) as i64, d]
            }
            "square" => {
                // 2^-j of a right angle to one side of it; every product here is exact
                let (p, q, j, s) = (x[0].f(), x[1].f(), p2(x[2].i() as i32), x[3].f());
                let k = e.unit();
                let w = |a: f64, b: f64| Coordinate::new_xy(a * k, b * k);
                let (a, t, b) = (w(p, q), w(0.0, 0.0), w(-q * j + s, p * j));
                let tri = Triangle::new(&a, &t, &b);
                ja![bit(Angle::is_acute(&a, &t, &b)), bit(Angle::is_obtuse(&a, &t, &b)), bit(Angle::is_acute(&b, &t, &a)), bit(Angle::is_obtuse(&b, &t, &a)), bit(tri.is_acute())]
            }
            "turns" => {
                // the same two directions, whole turns apart
                let (a, b) = (rad(&x[0]) + x[2].f() * 2.0 * PI, rad(&x[1]));
                ja![Angle::get_turn(a, b) as i64, Angle::get_turn(b, a) as i64]
            }
            "asnap" => {
                let (a, w) = (rad(&x[0]), p2(-(x[2].i() as i32)));
                let b = a + x[1].f() * w;
                ja![tol(Angle::cos_snap(b) / w, 8e-15 / w + 1e-9), tol(Angle::sin_snap(b) / w, 8e-15 / w + 1e-9)]
            }
            "two" => ja![plain(Angle::diff(rad(&x[0]), rad(&x[1]))), Angle::get_turn(rad(&x[0]), rad(&x[1])) as i64],
            "project" => {
                let p = Coordinate::new_xy(x[0].a()[0].f(), x[0].a()[1].f());
                let c = Angle::project(&p, rad(&x[1]), x[2].f());
                ja![c.x, c.y]
            }
            "snap" => ja![Angle::cos_snap(rad(&x[0])), Angle::sin_snap(rad(&x[0]))],
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 3, 12, 1000]);
        let nz = |r: &mut Rng| loop { let p = rpt(r, m); if p != ja![0, 0] { return p; } };
        vec![match r.below(6) {
            0 | 1 => {
                let a = nz(r);
                let k = r.range(1, 3);
                let (p, q) = (a.a()[0].i(), a.a()[1].i());
                // parallel, opposite and perpendicular ones as well
                let b = match r.below(5) { 0 => ja![k * p, k * q], 1 => ja![-k * p, -k * q], 2 => ja![-k * q, k * p], _ => nz(r) };
                ("vec".into(), ja![a, b])
            }
            2 if r.chance(1, 4) => if r.chance(1, 2) { ("many".into(), ja![r.range(-1 << 30, 1 << 30)]) } else { ("far".into(), ja![r.range(-999, 999), r.range(0, 1000)]) },
            2 => ("norm".into(), ja![r.range(-600, 600)]),
            3 if r.chance(1, 2) => { let s = *r.pick(&[-1, 1]); let e = r.range(20, 44); if r.chance(1, 2) { ("aturn".into(), ja![r.range(-24, 24), s, e]) } else { ("asnap".into(), ja![6 * r.range(-4, 4), s, e]) } }
            3 => ("tiny".into(), ja![r.range(-3, 3), r.range(-1, 1), r.range(0, 300)]),
            4 if r.chance(1, 2) => if r.chance(1, 2) {
                let m = *r.pick(&[1, 5, 31]);
                let (p, q) = (r.range(1, m) * *r.pick(&[-1, 1]), r.range(-31, 31));
                ("square".into(), ja![p, q, r.range(8, match m { 31 => 42, 5 => 45, _ => 47 }), r.range(-1, 1)])
            } else { ("turns".into(), ja![r.range(-24, 24), r.range(-24, 24), r.range(-200, 200)]) },
            4 => ("two".into(), ja![r.range(-12, 12), r.range(-12, 12)]),
            _ => ("project".into(), ja![rpt(r, 1000), *r.pick(&[2, 3]) * r.range(-8, 8), r.range(-9, 9)]),
        }]
    }
}
