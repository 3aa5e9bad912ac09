//! C10: DE-9IM matrices.
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C10 { m: IntersectionMatrix, r: Rng, lower: bool }

fn sym(v: i64) -> char { match v { -1 => 'F', -2 => 'T', -3 => '*', 0 => '0', 1 => '1', 2 => '2', _ => panic!("harness: symbol") } }
impl C10 {
    pub fn new(seed: u64, _t: bool) -> C10 { C10 { m: IntersectionMatrix::default(), r: Rng::new(seed), lower: false } }
    fn text(&self, a: &J) -> String {
        let s: String = a.ints().iter().map(|v| sym(*v)).collect();
        if self.lower { s.to_lowercase() } else { s }
    }
    fn mat(&mut self, a: &J) -> IntersectionMatrix {
        let v = a.ints();
        match self.r.below(4) {
            0 => IntersectionMatrix::new_with_elements(self.text(a)),
            1 => { let mut m = IntersectionMatrix::default(); for (k, x) in v.iter().enumerate() { m.set_row_column_value(k / 3, k % 3, *x as i32); } m }
            2 => {
                let o = IntersectionMatrix::new_with_elements(self.text(a));
                let m = IntersectionMatrix::new_from_intersection_matrix(&o);
                if !m.equals(&o) { m2bad() } else { m }
            }
            _ => { let mut m = IntersectionMatrix::new_with_elements("210F*T210".to_string()); m.set_string(self.text(a)); m }
        }
    }
    fn obs(&self, m: &IntersectionMatrix) -> J {
        let v: Vec<i64> = (0..9).map(|k| m.get(k / 3, k % 3) as i64).collect();
        if v.iter().any(|x| *x < -3 || *x > 2) || m.to_string() != v.iter().map(|x| sym(*x)).collect::<String>() { return J::I(BAD); }
        J::from(v)
    }
}
// a matrix no specification produces
fn m2bad() -> IntersectionMatrix { let mut m = IntersectionMatrix::default(); m.set_all(-9); m }

impl Sut for C10 {
    fn variants(&self) -> usize { 2 }
    fn begin(&mut self, v: usize) { self.lower = v == 1; self.m = IntersectionMatrix::default(); }
    fn describe(&self, v: usize) -> String { (if v == 1 { "lower-case symbols" } else { "upper-case symbols" }).into() }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "up" => {
                let (r, c) = if a.len() == 4 { (a[1].u(), a[2].u()) } else { (0, 0) };
                match a[0].str() {
                    "set" => self.m.set_row_column_value(r, c, a[3].i() as i32),
                    "least" => {
                        if self.r.chance(1, 2) { self.m.set_at_least_row_column_dimension(r, c, a[3].i() as i32) }
                        else { self.m.set_at_least_row_column_dimension_if_valid(r, c, a[3].i() as i32) }
                    }
                    "all" => self.m.set_all(a[1].i() as i32),
                    "str" => { let s = self.text(&a[1]); self.m.set_string(s) }
                    "lstr" => { let s = self.text(&a[1]); self.m.set_at_least_string(s) }
                    "add" => {
                        let o = self.mat(&a[1]);
                        self.m.add(&o);
                        if self.obs(&o) != a[1] { return J::I(BAD); }
                    }
                    "trans" => self.m.transpose(),
                    x => panic!("harness: up {}", x),
                }
                self.obs(&self.m)
            }
            "preds" => {
                let m = self.mat(&a[0]);
                let mut v = vec![bit(m.is_disjoint()), bit(m.is_intersects()), bit(m.is_within()), bit(m.is_contains()), bit(m.is_covers()), bit(m.is_covered_by())];
                let mut d = vec![];
                for p in -1..3 { for q in -1..3 {
                    d.push(m.is_touches(p, q) as i64 + 2 * m.is_crosses(p, q) as i64 + 4 * m.is_equals(p, q) as i64 + 8 * m.is_overlaps(p, q) as i64);
                } }
                v.push(J::from(d));
                if self.obs(&m) != a[0] { return J::I(BAD); }
                J::A(v)
            }
            "like" => {
                let m = self.mat(&a[0]);
                let p: String = a[1].ints().iter().map(|v| sym(*v)).collect();
                let b = m.matches_string(p.clone());
                let t = self.text(&a[0]);
                if IntersectionMatrix::matches_string_string(t, p) != b { return J::I(BAD); }
                bit(b)
            }
            "fits" => bit(IntersectionMatrix::matches_i32_char(a[0].i() as i32, sym(a[1].i()))),
            "eq" => { let (m, n) = (self.mat(&a[0]), self.mat(&a[1])); let b = m.equals(&n); if n.equals(&m) != b { J::I(BAD) } else { bit(b) } }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        fn m(r: &mut Rng, lo: i64, n: i64) -> J { J::A((0..n).map(|_| J::I(r.range(lo, 2))).collect()) }
        // a pattern that has a fair chance to fit
        fn pat(r: &mut Rng, x: &J) -> J {
            if r.chance(1, 8) { let n = r.range(0, 9); return m(r, -3, n); }
            J::A(x.ints().iter().map(|v| if r.chance(1, 9) { J::I(r.range(-3, 2)) } else { J::I(match r.below(3) { 0 => *v, 1 => -3, _ => if *v >= 0 { -2 } else { *v } }) }).collect())
        }
        match r.below(6) {
            0 => vec![("preds".into(), J::A(vec![m(r, -3, 9)]))],
            1 => { let x = m(r, -3, 9); let p = pat(r, &x); vec![("like".into(), J::A(vec![x, p]))] }
            2 => { let x = m(r, -3, 9); let mut y = x.ints(); if r.chance(2, 3) { let k = r.below(9); y[k] = r.range(-3, 2); } vec![("eq".into(), J::A(vec![x, J::from(y)]))] }
            3 => vec![("fits".into(), ja![r.range(-3, 2), r.range(-3, 2)])],
            _ => (0..size(r, 3, 12).min(120)).map(|_| ("up".to_string(), match r.below(8) {
                0 | 1 => ja!["set", r.range(0, 2), r.range(0, 2), r.range(-3, 2)],
                2 | 3 => ja!["least", r.range(0, 2), r.range(0, 2), r.range(-3, 2)],
                4 => if r.chance(1, 3) { ja!["all", r.range(-3, 2)] } else { ja!["trans"] },
                5 => { let n = r.range(0, 9); J::A(vec![J::s("str"), m(r, -3, n)]) }
                6 => { let n = r.range(0, 9); J::A(vec![J::s("lstr"), m(r, -3, n)]) }
                _ => J::A(vec![J::s("add"), m(r, -3, 9)]),
            })).collect(),
        }
    }
}
