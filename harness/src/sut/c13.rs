//! C13: utilities on coordinate arrays.
use super::c12::{Ords, NAN};
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateArrays as CA, *};

const INV: i64 = -98;

pub struct C13 { ords: Vec<Ords>, o: Ords, r: Rng }
impl C13 {
    pub fn new(seed: u64, thorough: bool) -> C13 {
        let ords = Ords::sets(seed ^ 13, if thorough { 16 } else { 4 }, -60, 60);
        C13 { o: ords[0].clone(), ords, r: Rng::new(seed) }
    }
    fn c(&mut self, c: &J) -> Coordinate {
        let v = c.ints();
        let mut f = |k: usize| if v[k] == INV { *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { self.o.f(k, v[k]) };
        let (x, y, z, m) = (f(0), f(1), f(2), f(3));
        Coordinate::new_xyzm(x, y, z, m)
    }
    fn arr(&mut self, t: &J) -> Vec<Coordinate> { t.a().iter().map(|c| self.c(c)).collect() }
    fn un(&self, c: &Coordinate) -> J {
        J::from(vec![if c.x.is_finite() { self.o.inv(0, c.x) } else { INV }, if c.y.is_finite() { self.o.inv(1, c.y) } else { INV }, self.o.inv(2, c.z), self.o.inv(3, c.m)])
    }
    fn uns(&self, v: &[Coordinate]) -> J { J::A(v.iter().map(|c| self.un(c)).collect()) }
    fn opt(&self, c: Option<Coordinate>) -> J { match c { Some(c) => self.un(&c), None => ja![] } }
}
fn ms(v: &[Coordinate]) -> J { J::from(v.iter().map(|c| !c.get_m().is_nan() as i64).collect::<Vec<i64>>()) }

impl Sut for C13 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.o = self.ords[v].clone(); }
    fn describe(&self, v: usize) -> String { format!("ordinate tables {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "facts" => {
                let t = self.arr(&a[0]);
                let e = CA::envelope(&t);
                let b = if e.is_null() { ja![] } else { J::from(vec![self.o.inv(0, e.get_min_x()), self.o.inv(0, e.get_max_x()), self.o.inv(1, e.get_min_y()), self.o.inv(1, e.get_max_y())]) };
                let c = CA::copy_deep(&t);
                if self.uns(&c) != self.uns(&t) { return J::I(BAD); }
                J::A(vec![bit(CA::is_ring(&t)), bit(CA::has_repeated_points(&t)), self.uns(&CA::remove_repeated_points(&t)), b, self.opt(CA::min_coordinate(&t)),
                    ja![CA::dimension(&t), CA::measures(&t)], J::from(CA::increasing_direction(&t).signum())])
            }
            "clean" => { let t = self.arr(&a[0]); J::A(vec![bit(CA::has_repeated_or_invalid_points(&t)), self.uns(&CA::remove_repeated_or_invalid_points(&t))]) }
            "cmp" => { let (t, u) = (self.arr(&a[0]), self.arr(&a[1])); J::A(vec![J::from(CA::compare(&t, &u).signum()), bit(CA::equals(&t, &u)), self.opt(CA::pt_not_in_list(&t, &u))]) }
            "eqrev" => { let (t, u) = (self.arr(&a[0]), self.arr(&a[1])); bit(CA::is_equal_reversed(&t, &u)) }
            "extract" => { let t = self.arr(&a[0]); self.uns(&CA::extract(&t, a[1].u(), a[2].u())) }
            "copyto" => { let (t, mut u) = (self.arr(&a[0]), self.arr(&a[2])); CA::copy_deep_to(&t, a[1].u(), &mut u, a[3].u(), a[4].u()); self.uns(&u) }
            "atleast" => { let t = self.arr(&a[1]); self.uns(&CA::at_least_n_coordinates_or_nothing(a[0].u(), &t)) }
            "scroll" => {
                let mut t = self.arr(&a[0]);
                let mut u = t.clone();
                CA::scroll_index(&mut t, a[1].u());
                CA::scroll_index_ensure_ring(&mut u, a[1].u(), false);
                J::A(vec![self.uns(&t), self.uns(&u)])
            }
            "sring" => { let mut t = self.arr(&a[0]); CA::scroll_index_ensure_ring(&mut t, a[1].u(), true); self.uns(&t) }
            "to" => {
                let mut t = self.arr(&a[0]);
                let c = self.c(&a[1]);
                let i = CA::index_of(&c, &t);
                CA::scroll_coordinate(&mut t, &c);
                J::A(vec![J::from(i), self.uns(&t)])
            }
            "inside" => {
                let t = self.arr(&a[0]);
                let e = a[1].ints();
                let env = Envelope::new_coordinates(&Coordinate::new_xy(self.o.f(0, e[0]), self.o.f(1, e[2])), &Coordinate::new_xy(self.o.f(0, e[1]), self.o.f(1, e[3])));
                if !CA::intersection(&t, &Envelope::default()).is_empty() { return J::I(BAD); }
                self.uns(&CA::intersection(&t, &env))
            }
            // with how many measures each coordinate has afterwards
            "fit" => { let t = self.arr(&a[0]); let v = CA::enforce_consistency_dim_measures(&t, a[1].i() as i32, a[2].i() as i32); J::A(vec![self.uns(&v), ms(&v)]) }
            "unify" => { let mut t = self.arr(&a[0]); CA::enforce_consistency(&mut t); J::A(vec![self.uns(&t), ms(&t)]) }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 2, 8, 40]);
        let z = r.range(1, 6);
        let c = |r: &mut Rng| { let (x, y) = (r.range(-m, m), r.range(-m, m)); J::from(vec![x, y, if r.chance(z as u64, 7) { r.range(-9, 9) } else { NAN }, if r.chance(z as u64, 7) { r.range(-9, 9) } else { NAN }]) };
        let seq = |r: &mut Rng, n: i64| {
            let mut v: Vec<J> = vec![];
            for _ in 0..n { let k = if !v.is_empty() && r.chance(1, 4) { let mut d = v[v.len() - 1].a().to_vec(); d[2] = J::I(r.range(-9, 9)); J::A(d) } else { c(r) }; v.push(k); }
            if n > 2 && r.chance(1, 2) { let k = v.len() - 1; v[k] = v[0].clone(); }
            spike(r, &mut v);
            // the same backwards, or all but one of them
            if n > 2 && r.chance(1, 4) {
                let k = v.len();
                for i in 0..k / 2 { v[k - 1 - i] = v[i].clone(); }
                if r.chance(2, 3) { let i = r.below(k); v[i] = c(r); }
            }
            v
        };
        if r.chance(1, 40) {
            // long ones that read the same from both ends but for a place or two far inside
            let n = r.range(17, 120) as usize;
            let mut v = seq(r, n as i64);
            for i in 0..n / 2 { v[n - 1 - i] = v[i].clone(); }
            for _ in 0..r.range(0, 2) { let i = r.range(n as i64 / 4, n as i64 / 2 + 1) as usize; v[i] = c(r); }
            let mut u: Vec<J> = v.clone();
            if r.chance(2, 3) { let i = r.below(n); u[i] = c(r); }
            return vec![match r.below(4) { 0 => ("eqrev".into(), ja![J::A(v), J::A(u)]), 1 => ("cmp".into(), ja![J::A(v), J::A(u)]), _ => ("facts".into(), ja![J::A(v)]) }];
        }
        let n = size(r, 0, 12);
        let t = seq(r, n);
        let tj = J::A(t.clone());
        let q = |o: &str, a: Vec<J>| vec![(o.to_string(), J::A(a))];
        match r.below(13) {
            0 => q("facts", vec![tj]),
            1 => { let mut t = t; for _ in 0..r.range(0, 3) { if n > 0 { let i = r.below(n as usize); let mut d = t[i].a().to_vec(); d[r.below(2)] = J::I(INV); t[i] = J::A(d); } } q("clean", vec![J::A(t)]) }
            2 | 3 => {
                let mut u = t.clone();
                if n > 0 { match r.below(4) { 0 => { u.pop(); } 1 => u.push(c(r)), 2 => { let i = r.below(u.len()); let mut d = u[i].a().to_vec(); d[r.below(4)] = J::I(r.range(-m, m)); u[i] = J::A(d); } _ => {} } }
                if r.chance(1, 3) { u = seq(r, 2); }
                q("cmp", vec![tj, J::A(u)])
            }
            4 => { let mut u: Vec<J> = t.iter().rev().cloned().collect(); if n > 0 && r.chance(1, 2) { let i = r.below(u.len()); u[i] = c(r); } q("eqrev", vec![tj, J::A(u)]) }
            5 => q("extract", vec![tj, J::I(r.range(0, n + 2)), J::I(r.range(0, n + 3))]),
            6 => { let nu = r.range(0, 8); let u = seq(r, nu); let k = r.range(0, n.min(nu)); q("copyto", vec![tj, J::I(r.range(0, n - k)), J::A(u), J::I(r.range(0, nu - k)), J::I(k)]) }
            7 => q("atleast", vec![J::I(r.range(0, 14)), tj]),
            8 if n > 0 => q("scroll", vec![tj, J::I(r.range(0, n - 1))]),
            9 => { let k = if n > 0 && r.chance(2, 3) { let mut d = t[r.below(t.len())].a().to_vec(); d[2] = J::I(NAN); J::A(d) } else { c(r) }; q("to", vec![tj, k]) }
            10 => { let (a, b, e, f) = (r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m)); q("inside", vec![tj, ja![a.min(b), a.max(b), e.min(f), e.max(f)]]) }
            11 => { let f = *r.pick(&[(2i64, 0i64), (3, 0), (3, 1), (4, 1)]); q("fit", vec![tj, J::I(f.0), J::I(f.1)]) }
            _ => q("unify", vec![tj]),
        }
    }
}
