//! C25: numeric helpers.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C25 { ords: Vec<OrdEmb>, v: usize, r: Rng }
const LO: i64 = -60;
const HI: i64 = 60;
impl C25 {
    pub fn new(seed: u64, thorough: bool) -> C25 {
        C25 { ords: orders(seed ^ 25, if thorough { 40 } else { 10 }, LO, HI), v: 0, r: Rng::new(seed) }
    }
    /// order only: any increasing table of doubles will do
    fn f(&self, x: i64) -> f64 { if x >= LO && x <= HI { self.ords[self.v].f(x) } else { x as f64 } }
    fn back(&self, x: f64) -> J {
        if let Some(k) = self.ords[self.v].inv(x) { return J::I(k); }
        if self.v == 0 { return int(x); }
        J::I(BAD)
    }
}

impl Sut for C25 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.v = v; }
    fn describe(&self, v: usize) -> String { format!("table {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let sk = J::s("skip");
        match op {
            "clamp" => {
                let (x, l, h) = (a[0].i(), a[1].i(), a[2].i());
                let inside = |v: i64| v >= LO && v <= HI;
                let f = if self.v == 0 || (inside(x) && inside(l) && inside(h)) { self.back(MathUtil::clamp_f64(self.f(x), self.f(l), self.f(h))) } else { sk };
                ja![f, MathUtil::clamp_i32(x as i32, l as i32, h as i32) as i64, MathUtil::clamp_max(x as i32, h as i32) as i64]
            }
            "ceil" => J::I(MathUtil::ceil(a[0].i() as i32, a[1].i() as i32) as i64),
            "wrap" => J::I(MathUtil::wrap(a[0].i() as i32, a[1].i() as i32) as i64),
            "mean" => { let s = p2(*self.r.pick(&[0, 40, -90])); J::F(MathUtil::average(a[0].f() * s, a[1].f() * s) / s) }
            "ends" => {
                let v: Vec<f64> = a[0].ints().iter().map(|x| self.f(*x)).collect();
                ja![self.back(MathUtil::max_3(v[0], v[1], v[2])), self.back(MathUtil::max_4(v[0], v[1], v[2], v[3])), self.back(MathUtil::min(v[0], v[1], v[2], v[3]))]
            }
            "near" => { let s = p2(*self.r.pick(&[0, 40, -90])); bit(NumberUtil::equals_with_tolerance(a[0].f() * s, a[1].f() * s, a[2].f() * s)) }
            "quasi" => {
                let t = a[0].ints();
                let (al, mut c) = (t[0] as f64 / t[1] as f64, t[2] as f64 / t[1] as f64);
                let mut v = vec![];
                for _ in 0..a[1].i() {
                    c = MathUtil::quasirandom_curr_alpha(c, al);
                    if !(c >= 0.0 && c < 1.0) { return J::I(BAD); }
                    v.push(J::F(c));
                }
                J::A(v)
            }
            "phi" => {
                // steps of the golden section: in range, and any two of the first draws are well apart
                let mut c = a[0].f() / a[1].f();
                let mut v = vec![];
                for i in 0..40 {
                    let d = MathUtil::quasirandom_curr(c);
                    let want = a[0].f() / a[1].f() + (i + 1) as f64 * (5f64.sqrt() - 1.0) / 2.0;
                    let w = d - want;
                    if !(d >= 0.0 && d < 1.0) || (w - w.round()).abs() > 1e-9 { return J::I(BAD); }
                    v.push(d);
                    c = d;
                }
                J::I(1)
            }
            "orders" => {
                let mut seen = std::collections::BTreeSet::new();
                for _ in 0..3000 { seen.insert(MathUtil::shuffle(a[0].u())); }
                J::from(seen.len())
            }
            // how many numbers one place sees
            "reaches" => {
                let (n, p) = (a[0].u(), a[1].u());
                let mut seen = std::collections::BTreeSet::new();
                for _ in 0..80 * n { seen.insert(MathUtil::shuffle(n)[p]); if seen.len() == n { break; } }
                J::from(seen.len())
            }
            "shuffle" => {
                let mut v = MathUtil::shuffle(a[0].u());
                v.sort();
                J::A(v.into_iter().map(|x| J::I(x as i64)).collect())
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[3, 60, 60, 1000000, 2000000000]);
        let s = 60;
        let mut o = [r.range(-m, m), r.range(-m, m), r.range(-m, m)];
        if r.chance(1, 3) { o[0] = o[1]; }
        vec![match r.below(8) {
            0 | 1 => { let (l, h) = (o[1].min(o[2]), o[1].max(o[2])); ("clamp".into(), ja![o[0], l, h]) }
            2 => { let mut d = r.range(-30, 30); if d == 0 { d = 1; } let m = 2000; ("ceil".into(), ja![r.range(-m, m), d]) }
            3 => ("wrap".into(), ja![o[0], r.range(1, 40)]),
            4 => ("mean".into(), ja![r.range(-1000, 1000), r.range(-1000, 1000)]),
            5 => ("ends".into(), ja![ja![r.range(-s, s), r.range(-s, s), r.range(-s, s), r.range(-s, s)]]),
            6 => { let m = m.min(1000000); let (x, y) = (r.range(-m, m), r.range(-m, m)); let k = r.range(-1, 1); ("near".into(), ja![x, y, ((x - y).abs() + k).max(0)]) }
            _ => if r.chance(1, 2) { ("shuffle".into(), ja![r.range(0, 60)]) } else if r.chance(1, 2) { let d = r.range(1, 1000); ("quasi".into(), ja![ja![r.range(0, 2 * d), d, r.range(0, d - 1)], 12]) } else { let d = r.range(1, 100); ("phi".into(), ja![r.range(0, d - 1), d]) },
        }]
    }
}
