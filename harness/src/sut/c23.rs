//! C23: extended precision arithmetic.
use super::util::*;
use crate::big::Big;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

const KS: [(i64, i64); 14] = [(30, 0), (12, 0), (16, 3), (20, 0), (24, -40), (26, 100), (33, 0), (40, -7), (47, 0), (49, 60), (53, 0), (54, -1), (80, 0), (200, 11)];
pub struct C23 { k: i64, s: i64, r: Rng, x: DD, big: Big, tol: f64, dead: bool, scale: i64 }
impl C23 {
    pub fn new(seed: u64, _thorough: bool) -> C23 {
        C23 { k: 30, s: 0, r: Rng::new(seed), x: DD::default(), big: Big::int(0), tol: 0.0, dead: false, scale: 0 }
    }
    /// the normalised pair for a polynomial; None if it does not fit
    fn mk(&mut self, p: &J, s: i64) -> Option<(DD, Big)> {
        let b = Big::poly(&p.ints(), self.k).scale(s);
        // far from the smallest doubles, also after multiplying
        if b.bits().map_or(false, |(_, l)| l < -450) { return None; }
        let hi = b.f64();
        let rest = b.sub(&Big::of(hi));
        let lo = rest.f64();
        if !rest.sub(&Big::of(lo)).zero() { return None; }
        let d = match self.r.below(6) {
            4 if lo == 0.0 => { let mut d = DD::new_hi_lo(3.5, 1e-20); d.set_value_f64(hi); d }
            5 => DD::new_from_dd(&DD::new_hi_lo(hi, lo)),
            0 if lo == 0.0 => DD::new_x(hi),
            1 if lo == 0.0 => DD::value_of_f64(hi),
            2 => { let mut d = DD::new_pi(); d.set_value_dd(&DD::new_hi_lo(hi, lo)); d }
            3 => DD::copy(&DD::new_hi_lo(hi, lo)).copy_self(),
            _ => DD::new_hi_lo(hi, lo),
        };
        Some((d, b))
    }
    fn obs(&self, d: &DD, s: i64, t: f64) -> J {
        let (hi, lo) = d.verif_parts();
        if hi.is_nan() || lo.is_nan() { return J::F(f64::NAN); }
        // the two components do not overlap, so that comparisons see the value
        if hi + lo != hi { return J::A(vec![J::s("overlap"), J::F(hi), J::F(lo)]); }
        J::O(vec![("hi".into(), J::F(hi)), ("lo".into(), J::F(lo)), ("k".into(), J::I(self.k)), ("s".into(), J::I(s)), ("t".into(), J::F(t))])
    }
    /// a double that is the value, for the operations taking one
    fn dbl(&self, b: &Big) -> Option<f64> { let x = b.f64(); if Big::of(x).sub(b).zero() { Some(x) } else { None } }
}
fn span(b: &Big) -> i64 { b.bits().map_or(0, |(h, l)| h - l + 1) }
fn mag(b: &Big) -> f64 { b.f64().abs() }
/// absolute error allowed to a sum and to a product, beside the result: none when at most 99 bits are involved
fn sum_tol(x: &Big, y: &Big) -> f64 {
    let (h, l) = match (x.bits(), y.bits()) { (Some(a), Some(b)) => (a.0.max(b.0), a.1.min(b.1)), _ => return 0.0 };
    if h - l <= 98 { 0.0 } else { p2(-103) * mag(&x.add(y)) }
}
fn mul_tol(x: &Big, y: &Big) -> f64 { if span(x) + span(y) <= 99 { 0.0 } else { p2(-102) * mag(x) * mag(y) } }
fn same(a: &DD, b: &DD) -> bool { a.verif_parts() == b.verif_parts() }

impl Sut for C23 {
    fn variants(&self) -> usize { KS.len() }
    fn begin(&mut self, v: usize) { self.k = KS[v].0; self.s = KS[v].1; self.dead = false; }
    fn describe(&self, v: usize) -> String { format!("e = 2^-{}, scale 2^{}", KS[v].0, KS[v].1) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let sk = J::s("skip");
        let s = self.s;
        // the powers would leave the range
        macro_rules! get { ($p:expr, $s:expr) => { match self.mk($p, $s) { Some(x) => x, None => { self.dead = true; return J::s("skip") } } } }
        match op {
            "up" => {
                if self.dead { return sk; }
                let what = a[0].str();
                if what == "set" {
                    let (d, b) = get!(&a[1], s);
                    self.x = d; self.big = b; self.tol = 0.0; self.scale = s;
                    return self.obs(&d, s, 0.0);
                }
                let form = self.r.below(3);
                let old = self.x;
                let mut x = self.x;
                let (fresh, want, t, ns);
                match what {
                    "add" | "sub" => {
                        let (mut d, mut b) = get!(&a[1], self.scale);
                        if what == "sub" && form == 2 { b = b.neg(); d = match self.mk(&J::A(a[1].ints().iter().map(|c| J::I(-c)).collect()), self.scale) { Some(x) => x.0, None => return sk }; }
                        let keep = d;
                        let y = self.dbl(&b);
                        fresh = match (what, form, y) {
                            ("add", 0, Some(y)) => { x.self_add_f64(y); self.x.add_f64(y) }
                            ("add", 1, Some(y)) => { x.self_add_hi_lo(d.verif_parts().0, d.verif_parts().1); self.x.add_f64(y) }
                            ("add", _, _) => { x.self_add_dd(&d); self.x.add_dd(&d) }
                            ("sub", 2, _) => { x.self_add_dd(&d); self.x.add_dd(&d) }
                            ("sub", 0, Some(y)) => { x.self_subtract_f64(y); self.x.subtract_f64(y) }
                            (_, _, _) => { x.self_subtract_dd(&d); self.x.subtract_dd(&d) }
                        };
                        if !same(&keep, &d) { return J::I(BAD); }
                        if what == "sub" && form != 2 { b = b.neg(); }
                        t = self.tol + sum_tol(&self.big, &b) + p2(-100) * self.tol;
                        want = self.big.add(&b);
                        ns = self.scale;
                    }
                    "mul" => {
                        let (d, b) = get!(&a[1], s);
                        let keep = d;
                        fresh = match (form, self.dbl(&b)) {
                            (0, Some(y)) => { x.self_multiply_f64(y); self.x.multiply_f64(y) }
                            _ => { x.self_multiply_dd(&d); self.x.multiply_dd(&d) }
                        };
                        if !same(&keep, &d) { return J::I(BAD); }
                        t = self.tol * mag(&b) + mul_tol(&self.big, &b) + p2(-98) * self.tol * mag(&b);
                        want = self.big.mul(&b);
                        ns = self.scale + s;
                    }
                    "sqr" => {
                        x.self_sqr();
                        fresh = match (form, self.dbl(&self.big)) { (0, Some(y)) if self.tol == 0.0 => self.x.sqr_f64(y), (1, _) => self.x.multiply_dd(&old), _ => self.x.sqr() };
                        t = 2.0 * self.tol * mag(&self.big) + self.tol * self.tol + mul_tol(&self.big, &self.big) + if self.tol > 0.0 { p2(-97) * mag(&self.big) * mag(&self.big) } else { 0.0 };
                        want = self.big.mul(&self.big);
                        ns = 2 * self.scale;
                    }
                    "pow" => {
                        let n = a[1].i();
                        fresh = self.x.pow(n as i32);
                        x = fresh;
                        let mut w = Big::int(1);
                        for _ in 0..n { w = w.mul(&self.big); }
                        t = if span(&self.big) * n <= 99 && self.tol == 0.0 { 0.0 } else { mag(&w) * p2(-94) + n as f64 * self.tol * (mag(&self.big) + self.tol).powi(n as i32 - 1) * 1.01 };
                        want = w;
                        ns = n * self.scale;
                    }
                    "neg" => { fresh = self.x.negate(); x = fresh; want = self.big.clone().neg(); t = self.tol; ns = self.scale; }
                    "abs" => { fresh = self.x.abs(); x = fresh; want = self.big.clone().abs(); t = self.tol; ns = self.scale; }
                    w => panic!("harness: up {}", w),
                }
                // the non-mutating operation leaves its operand alone
                if !same(&old, &self.x) { return J::I(BAD); }
                if ns.abs() > 400 || want.bits().map_or(false, |(h, l)| h > 400 || l < -900) { self.dead = true; return sk; }
                let o = self.obs(&fresh, ns, t);
                self.x = x; self.big = want; self.tol = t; self.scale = ns;
                match (self.obs(&x, ns, t), &o) {
                    // both ways of saying it agree (the caller compares the one it is given)
                    (J::O(_), J::O(_)) => {
                        let b = Big::of(x.verif_parts().0).add(&Big::of(x.verif_parts().1));
                        if b.sub(&self.big).abs().le(&Big::of(t)) { o } else { J::s("mutating form differs") }
                    }
                    (z, J::O(_)) => z,
                    _ => o,
                }
            }
            "cmp" => {
                let ((x, _), (y, _)) = (get!(&a[0], s), get!(&a[1], s));
                ja![x.compare_to(&y) as i64, bit(x.gt(&y)), bit(x.ge(&y)), bit(x.lt(&y)), bit(x.le(&y)), bit(x.equals(&y)), self.obs(&x.min(&y), s, 0.0), self.obs(&x.max(&y), s, 0.0)]
            }
            "kind" => {
                let (x, b) = get!(&a[0], s);
                ja![x.signum() as i64, bit(x.is_zero()), bit(x.is_negative()), bit(x.is_positive()), self.obs(&x.abs(), s, 0.0), self.obs(&x.negate(), s, 0.0), bit(x.double_value() != b.f64() || x.is_nan())]
            }
            "whole" => {
                let j = a[1].i();
                // the coefficient j counts halves
                let mut c = a[0].ints();
                for (i, v) in c.iter_mut().enumerate() { if i as i64 != j - 1 { *v *= 2; } }
                let sc = self.k * (j - 1);
                let (x, b) = get!(&J::A(c.iter().map(|v| J::I(*v)).collect()), sc - 1);
                let mut y = x;
                let r = if span(&b) <= 97 { self.obs(&y.rint(), sc, 0.0) } else { sk };
                if !same(&x, &y) { return J::s("rint changes its operand"); }
                ja![self.obs(&x.floor(), sc, 0.0), self.obs(&x.ceil(), sc, 0.0), r, self.obs(&x.trunc(), sc, 0.0)]
            }
            "two" => {
                let ((x, b), (y, c)) = (get!(&a[0], s), get!(&a[1], s));
                ja![self.obs(&x.add_dd(&y), s, sum_tol(&b, &c)), self.obs(&x.subtract_dd(&y), s, sum_tol(&b, &c.clone().neg())), self.obs(&x.multiply_dd(&y), 2 * s, mul_tol(&b, &c))]
            }
            "div" => {
                let ((x, b), (y, c)) = (get!(&a[0], s), get!(&a[1], s));
                let q = match (self.r.below(3), self.dbl(&c)) {
                    (0, Some(d)) => x.divide_f64(d),
                    (1, Some(d)) => { let mut z = x; z.self_divide_f64(d); z }
                    (1, None) => { let mut z = x; z.self_divide_dd(&y); z }
                    _ => x.divide_dd(&y),
                };
                self.obs(&q, 0, p2(-98) * mag(&b) / mag(&c))
            }
            "recip" => { let (x, b) = get!(&a[0], s); self.obs(&x.reciprocal(), -s, p2(-98) / mag(&b)) }
            "pow" => {
                let (x, b) = get!(&a[0], 0);
                let n = a[1].i();
                if mag(&b) < 1e-30 || mag(&b) > 1e30 { return sk; }
                let exact = n >= 0 && span(&b) * n.max(1) <= 99;
                self.obs(&x.pow(n as i32), 0, if exact { 0.0 } else { p2(-94) * mag(&b).powi(n as i32) })
            }
            "root" => {
                let s = s & !1;
                let (x, b) = get!(&a[0], s);
                if b.zero() { return self.obs(&x.sqrt_dd(), s, 0.0); }
                let q = if let (Some(y), true) = (self.dbl(&b), self.r.chance(1, 2)) { DD::default().sqrt_f64(y) } else { x.sqrt_dd() };
                self.obs(&q, s, p2(-96) * mag(&b).sqrt())
            }
            "det" => {
                let ((x, bx), (y, by), (z, bz), (w, bw)) = (get!(&a[0], s), get!(&a[1], s), get!(&a[2], s), get!(&a[3], s));
                let (p, q) = (bx.mul(&bw), by.mul(&bz));
                let t = mul_tol(&bx, &bw) + mul_tol(&by, &bz) + sum_tol(&p, &q.neg());
                let d = match (self.dbl(&bx), self.dbl(&by), self.dbl(&bz), self.dbl(&bw)) {
                    (Some(x), Some(y), Some(z), Some(w)) => DD::determinant_xy_f64(x, y, z, w),
                    _ => DD::determinant_xy_dd(&x, &y, &z, &w),
                };
                self.obs(&d, 2 * s, t)
            }
            "int" => J::I(DD::new_x(a[0].f()).int_value() as i64),
            "nan" => {
                let (x, _b) = get!(&a[0], s);
                let n = if self.r.chance(1, 2) { DD::create_nan() } else { DD::new_nan() };
                let mut z = x; z.self_subtract_dd(&n);
                let (mut a1, mut a2, mut a3, mut a4) = (n, n, n, n);
                if let Some(y) = self.dbl(&_b) { a1.self_subtract_f64(y); a2.self_add_f64(y); a3.self_multiply_f64(y); a4.self_divide_f64(if y == 0.0 { 1.0 } else { y }); }
                let (a5, mut a6) = (n, n);
                a6.self_add_dd(&x);
                let v = [x.add_dd(&n), n.subtract_dd(&x), z, n.multiply_dd(&x), x.multiply_dd(&n), x.multiply_f64(f64::NAN), n.divide_dd(&x), x.divide_f64(f64::NAN), n.sqr(), n.sqrt_dd(), n.floor(), n.abs(), n.negate(), n.ceil(), {a5.clone().rint()}, n.trunc(), n.pow(3), a1, a2, a3, a4, a6, n.reciprocal()];
                J::A(v.iter().map(|d| if d.is_nan() { J::F(f64::NAN) } else { J::I(BAD) }).collect())
            }
            "const" => {
                // 2^122 times the constants, by integer arithmetic: Machin's formula and the exponential series
                let atan = |q: i128| { let (mut t, mut s, mut k) = ((1i128 << 122) / q, 0i128, 1i128); while t != 0 { s += if k % 4 == 1 { t / k } else { -(t / k) }; t /= q * q; k += 2; } s };
                let quarter = 4 * atan(5) - atan(239);
                let e = { let (mut t, mut s, mut k) = (1i128 << 122, 0i128, 1i128); while t != 0 { s += t; t /= k; k += 1; } s };
                let fix = |d: DD| { let (h, l) = d.verif_parts(); (h * p2(122)) as i128 + (l * p2(122)) as i128 };
                let ok = |a: i128, b: i128, sh: i32| (a - b).abs() < (1i128 << (122 - 104 + sh));
                let p4 = fix(DD::new_pi().multiply_f64(0.25));
                let v = [ok(p4, quarter, 0), ok(fix(DD::new_two_pi().multiply_f64(0.125)), quarter, 0), ok(fix(DD::new_pi_2().multiply_f64(0.5)), quarter, 0), ok(fix(DD::new_e().multiply_f64(0.25)), e / 4, 0)];
                J::I(v.iter().filter(|x| **x).count() as i64)
            }
            "magnitude" => {
                let (n, k) = (a[0].f(), a[1].i());
                let x = if k >= 0 { n * 10f64.powi(k as i32) } else { n / 10f64.powi(-k as i32) };
                let g = if self.r.chance(1, 2) { x } else { -x };
                J::I(DD::default().magnitude(g) as i64)
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        fn poly(r: &mut Rng) -> J {
            let n = r.range(0, 3);
            let m = *r.pick(&[1, 2, 9, 60]);
            let mut v: Vec<i64> = (0..n).map(|_| if r.chance(1, 4) { 0 } else { r.range(-m, m) }).collect();
            while v.last() == Some(&0) { v.pop(); }
            J::A(v.into_iter().map(J::I).collect())
        }
        let p = |r: &mut Rng| poly(r);
        match r.below(10) {
            0 | 1 | 2 => {
                let mut v = vec![("up".to_string(), ja!["set", p(r)])];
                for _ in 0..r.range(1, 6) {
                    // products are kept to the beginning so that the coefficients stay small
                    let w = match r.below(9) { 0..=2 => ja!["add", p(r)], 3..=5 => ja!["sub", p(r)], 6 if v.len() < 3 => ja!["mul", p(r)], 7 if v.len() < 2 => ja!["sqr"], 8 if v.len() < 2 => ja!["pow", r.range(0, 3)], 6 => ja!["abs"], _ => ja!["neg"] };
                    v.push(("up".to_string(), w));
                }
                v
            }
            3 => {
                // nearly equal numbers
                let a = p(r);
                let mut b = a.ints();
                if r.chance(3, 4) { b.push(0); let i = r.below(b.len()); b[i] += r.range(-1, 1); }
                while b.last() == Some(&0) { b.pop(); }
                vec![("cmp".into(), ja![a, J::A(b.into_iter().map(J::I).collect())])]
            }
            4 => vec![("kind".into(), ja![p(r)])],
            5 => { let mut c: Vec<i64> = (0..3).map(|_| if r.chance(1, 2) { r.range(-1, 1) } else { r.range(-9, 9) }).collect(); if r.chance(1, 3) { c.pop(); } vec![("whole".into(), ja![J::A(c.into_iter().map(J::I).collect()), r.range(1, 2)])] }
            6 => vec![("div".into(), ja![p(r), p(r)]), ("recip".into(), ja![p(r)])],
            7 => vec![("root".into(), ja![p(r)]), ("pow".into(), ja![ja![r.range(-9, 9), r.range(-3, 3)], r.range(-4, 6)])],
            8 => vec![("det".into(), ja![p(r), p(r), p(r), p(r)])],
            _ => vec![("two".into(), ja![p(r), p(r)]), ("magnitude".into(), if r.chance(1, 2) { ja![1, r.range(0, 22)] } else { ja![r.range(2, 9) * 10 + r.range(1, 9), r.range(-20, 20)] })],
        }
    }
}
