//! C18: precision models.
use super::util::*;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C18 { embs: Vec<i32>, e: i32, r: Rng }
impl C18 {
    pub fn new(seed: u64, thorough: bool) -> C18 {
        let mut r = Rng::new(seed ^ 18);
        let mut embs = vec![0];
        for _ in 0..if thorough { 20 } else { 6 } { embs.push(r.range(-60, 60) as i32); }
        C18 { e: 0, embs, r }
    }
    fn model(&mut self, m: &J) -> PrecisionModel {
        let v = m.a();
        let u = p2(self.e);
        let p = match v[0].str() {
            "F" => if self.r.chance(1, 2) { PrecisionModel::default() } else { PrecisionModel::new_with_type(PrecisionModelType::Floating) },
            "S" => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
            k => {
                let (n, d) = (v[1].f(), v[2].f());
                let s = if k == "X" { n / d / u } else { -(n / d * u) };
                if s == 1.0 && self.r.chance(1, 2) { PrecisionModel::new_with_type(PrecisionModelType::Fixed) }
                else if self.r.chance(1, 4) { let mut p = PrecisionModel::new_with_scale(7.0); p.set_scale(s); p }
                else { PrecisionModel::new_with_scale(s) }
            }
        };
        if self.r.chance(1, 4) { PrecisionModel::from_precision_model(p) } else { p }
    }
    fn val(&self, k: &J) -> f64 { k.f() / 8.0 * p2(self.e) }
    /// the number of the grid point (or of eighths) of a snapped value
    fn index(&self, m: &J, x: f64) -> J {
        let v = m.a();
        let x = x / p2(self.e);
        let (gn, gd) = match v[0].str() { "X" => (v[2].f(), v[1].f()), "G" => (v[1].f(), v[2].f()), _ => return int(x * 8.0) };
        let j = (x * gd / gn).round();
        // a scale or grid size that is a whole number is exact, and so is the nearest value to a grid point
        if (v[2].f() == 1.0) && x != if v[0].str() == "X" { j / gd } else { j * gn } { return J::I(BAD); }
        if (x - j * gn / gd).abs() <= 4.0 * f64::EPSILON * x.abs() { int(j) } else { J::I(BAD) }
    }
    fn t(p: PrecisionModelType) -> i64 { match p { PrecisionModelType::Floating => 0, PrecisionModelType::Fixed => 1, PrecisionModelType::FloatingSingle => 2 } }
}

impl Sut for C18 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.e = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("unit 2^{}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let mut p = self.model(&a[0]);
        match op {
            "snap" => {
                let x = self.val(&a[1]);
                let y = p.make_precise(x);
                // snapping again changes nothing, and neither do other values in between
                if self.r.chance(1, 2) { p.make_precise(self.r.f01() * 1000.0); if !p.make_precise(f64::NAN).is_nan() { return J::I(BAD); } }
                if p.make_precise(y) != y || p.make_precise(x) != y { return J::I(BAD); }
                self.index(&a[0], y)
            }
            "beside" => {
                let x = self.val(&a[1]);
                let x = if a[2].i() < 0 { x.next_down() } else { x.next_up() };
                let y = p.make_precise(x);
                if p.make_precise(y) != y { return J::I(BAD); }
                self.index(&a[0], y)
            }
            "far" => {
                let v = a[0].a();
                let g = if v[0].str() == "X" { v[2].f() / v[1].f() } else { v[1].f() / v[2].f() } * p2(self.e);
                let o = if self.r.chance(1, 3) { -p2(52) } else { p2(52) };
                int(p.make_precise((o + a[1].f()) * g) / g - o)
            }
            "huge" => {
                let (n, u) = (a[1].f(), p2(1003));
                let y = p.make_precise(n * u);
                if p.make_precise(y) != y || p.make_precise(f64::INFINITY) != f64::INFINITY || p.make_precise(f64::NEG_INFINITY) != f64::NEG_INFINITY { return J::I(BAD); }
                tol(y / u, 4.0 * f64::EPSILON * n.abs())
            }
            "coord" => {
                let mut c = Coordinate::new_xyzm(self.val(&a[1]), self.val(&a[2]), 0.1234567890123, -7.6543210987);
                p.make_precise_coordinate(&mut c);
                if c.z != 0.1234567890123 || c.m != -7.6543210987 { return J::I(BAD); }
                J::A(vec![self.index(&a[0], c.x), self.index(&a[0], c.y)])
            }
            "facts" => {
                let u = p2(self.e);
                J::A(vec![bit(p.is_floating()), J::I(Self::t(p.get_type())), J::F(p.get_scale() * u), J::F(p.grid_size() / u)])
            }
            "digits" => if self.e == 0 { J::from(p.get_maximum_significant_digits()) } else { J::s("skip") },
            "equal" => { let q = self.model(&a[1]); if p.equals(q) == q.equals(p) { bit(p.equals(q)) } else { J::I(BAD) } }
            "cmp" => if self.e == 0 { let q = self.model(&a[1]); if p.compare_to(&q).signum() == -q.compare_to(&p).signum() { J::from(p.compare_to(&q).signum()) } else { J::I(BAD) } } else { J::s("skip") },
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let model = |r: &mut Rng| -> J {
            if r.chance(1, 4) { return if r.chance(1, 3) { ja![J::s("F")] } else { ja![J::s("S")] }; }
            let (n, d) = match r.below(4) { 0 => (if r.chance(1, 2) { r.range(1, 60) } else { r.range(1, 999) }, 1), 1 => (1, r.range(1, 60)), 2 => (*r.pick(&[10, 100, 1000]), 1), _ => (r.range(1, 60), *r.pick(&[1, 2, 4, 8, 16])) };
            J::A(vec![J::s(*r.pick(&["X", "G"])), J::I(n), J::I(d)])
        };
        let m = model(r);
        let s = m.a()[0].str().to_string();
        let val = |r: &mut Rng| {
            if s == "S" || s == "F" { let b = r.range(0, 30); let x = r.range(0, (1 << b) - 1); return J::I(if r.chance(1, 2) { x } else { -x }); }
            let (n, d) = (m.a()[1].i(), m.a()[2].i());
            let (gn, gd) = if s == "X" { (d, n) } else { (n, d) };
            // around grid points, and around the middle between them
            let top = (12000 * gd / gn).clamp(1, 2000);
            let j = r.range(-top, top);
            let w = (8 * j * gn + if r.chance(2, 3) { 4 * gn } else { 0 }) / gd + if r.chance(1, 2) { 0 } else { r.range(-2, 2) };
            J::I(w.clamp(-100000, 100000))
        };
        let q = |o: &str, a: Vec<J>| vec![(o.to_string(), J::A(a))];
        match r.below(10) {
            8 if s == "X" || s == "G" => { let x = val(r); q("beside", vec![m.clone(), x, J::I(if r.chance(1, 2) { 1 } else { -1 })]) }
            9 if s == "X" || s == "G" => { let t = |r: &mut Rng| J::I(1 << r.range(0, 9)); q("far", vec![J::A(vec![J::s(&s), t(r), t(r)]), J::I(r.range(-100000, 100000))]) }
            8 if s == "F" => q("huge", vec![m.clone(), J::I(r.range(-1000000, 1000000))]),
            7 if s == "X" || s == "G" => q("huge", vec![m.clone(), J::I(r.range(-1000000, 1000000))]),
            0 => q("facts", vec![m.clone()]),
            1 | 2 if r.chance(1, 3) => {
                // scales with more digits than a float has
                let b = 2i64.pow(r.range(10, 29) as u32) + r.range(-1000, 1000) * r.range(0, 1);
                let c = |n: i64| J::A(vec![J::s("X"), J::I(n), J::I(1)]);
                match r.below(4) { 0 => q("digits", vec![c(b)]), 1 => q("cmp", vec![c(b), m.clone()]), 2 => q("facts", vec![c(b)]), _ => q("equal", vec![c(b), c(b + r.range(-1, 1))]) }
            }
            1 => q("digits", vec![m.clone()]),
            2 => { let n = model(r); q("equal", vec![m.clone(), n]) }
            3 => { let n = model(r); q("cmp", vec![m.clone(), n]) }
            4 => { let (x, y) = (val(r), val(r)); q("coord", vec![m.clone(), x, y]) }
            _ => { let x = val(r); q("snap", vec![m.clone(), x]) }
        }
    }
}
