//! C29: single coordinates.
use super::c12::NAN;
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{Coordinates as CS, *};

const INF: i64 = -97;

/// the lattice value v is v * odd * 2^exp
#[derive(Clone, Debug)]
struct Sc { odd: i64, exp: i32 }
pub struct C29 { vars: Vec<(Sc, Sc)>, s: Sc, m: Sc, c: Coordinate, r: Rng }

impl C29 {
    pub fn new(seed: u64, thorough: bool) -> C29 {
        let mut r = Rng::new(seed);
        let mut vars = vec![(Sc { odd: 1, exp: 0 }, Sc { odd: 1, exp: 0 })];
        for e in [0, -1, 3, -52, 30, 200, -200, 560, -560, 980, -1000] {
            for _ in 0..if thorough { 4 } else { 1 } {
                vars.push((Sc { odd: *r.pick(&[1, 3, 5, 1000001, 67108863]), exp: e }, Sc { odd: *r.pick(&[1, 7, 1000003]), exp: *r.pick(&[0, -5, 700, -700]) }));
            }
        }
        C29 { s: vars[0].0.clone(), m: vars[0].1.clone(), vars, c: Coordinate::default(), r }
    }
    fn f(&mut self, k: usize, v: i64) -> f64 {
        let s = if k < 3 { &self.s } else { &self.m };
        if v == NAN { f64::NAN } else if v == INF { *self.r.pick(&[f64::INFINITY, f64::NEG_INFINITY]) } else { (v * s.odd) as f64 * p2(s.exp) }
    }
    fn inv(&self, k: usize, x: f64) -> i64 {
        let s = if k < 3 { &self.s } else { &self.m };
        if x.is_nan() { return NAN; }
        if x.is_infinite() { return INF; }
        let u = x / p2(s.exp) / s.odd as f64;
        if u.fract() == 0.0 && u.abs() < 1e9 { u as i64 } else { BAD }
    }
    fn coord(&mut self, a: &J) -> Coordinate {
        let v = a.ints();
        let o: Vec<f64> = (0..4).map(|k| self.f(k, v[k])).collect();
        // every route that leaves exactly these ordinates
        match self.r.below(4) {
            0 if o[2].is_nan() && o[3].is_nan() => Coordinate::new_xy(o[0], o[1]),
            0 if o[3].is_nan() => Coordinate::new_xyz(o[0], o[1], o[2]),
            0 if o[2].is_nan() => Coordinate::new_xym(o[0], o[1], o[3]),
            1 => { let mut c = Coordinate::create(); for k in 0..4 { c.set_ordinate(k as i32, o[k]); } c }
            2 => { let mut c = Coordinate::default(); c.set_m(o[3]); c.set_z(o[2]); c.set_y(o[1]); c.set_x(o[0]); Coordinate::from_coordinate(&c) }
            _ => Coordinate::new_xyzm(o[0], o[1], o[2], o[3]),
        }
    }
    fn obs(&self) -> J {
        let c = &self.c;
        let v: Vec<i64> = (0..4).map(|k| c.get_ordinate(k as i32).map_or(BAD, |x| self.inv(k, x))).collect();
        let g = [c.get_x(), c.get_y(), c.get_z(), c.get_m()];
        if (0..4).any(|k| self.inv(k, g[k]) != v[k]) || c.get_ordinate(-1).is_some() || c.get_ordinate(4).is_some() { return J::I(BAD); }
        if v[0] != NAN && v[1] != NAN {
            let (z, m) = (v[2] != NAN, v[3] != NAN);
            if c.is_xy() != (!z && !m) || c.is_xym() != (!z && m) || c.is_xyzm() != (z && m) { return J::I(BAD); }
        }
        J::A(vec![J::from(v), bit(c.is_valid()), ja![CS::dimension(c), CS::measures(c)]])
    }
    /// squares of lengths at this scale are not floating-point numbers
    fn wide(&self) -> bool { self.s.exp.abs() > 300 }
    fn len(&self, d: f64) -> J { let u = d / p2(self.s.exp) / self.s.odd as f64; tol(u, 1e-12 * (1.0 + u.abs())) }
}

impl Sut for C29 {
    fn variants(&self) -> usize { self.vars.len() }
    fn begin(&mut self, v: usize) { self.s = self.vars[v].0.clone(); self.m = self.vars[v].1.clone(); self.c = Coordinate::default(); }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.vars[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "mut" => {
                match a[0].str() {
                    "new" => {
                        let v = a[2].ints();
                        let o: Vec<f64> = (0..4).map(|k| self.f(k, v[k])).collect();
                        let alt = self.r.chance(1, 2);
                        self.c = match a[1].str() {
                            "default" => match self.r.below(4) { 0 => Coordinate::create(), 1 => Coordinate::new_coordinatexy_default(), 2 => CS::create_dim(2), _ => Coordinate::default() },
                            "xy" => if alt { Coordinate::new_xy(o[0], o[1]) } else { Coordinate::new_coordinatexy(o[0], o[1]) },
                            "xyz" => Coordinate::new_xyz(o[0], o[1], o[2]),
                            "xym" => if alt { Coordinate::new_xym(o[0], o[1], o[3]) } else { Coordinate::new_coordinatexym(o[0], o[1], o[3]) },
                            "xyzm" => if alt { Coordinate::new_xyzm(o[0], o[1], o[2], o[3]) } else { Coordinate::new_coordinatexyzm(o[0], o[1], o[2], o[3]) },
                            x => panic!("harness: new {}", x),
                        };
                    }
                    "dim" => {
                        let (d, k) = (a[1].i() as i32, a[2].i() as i32);
                        self.c = match (d, k, self.r.chance(1, 2)) {
                            (3, 1, true) => Coordinate::new_coordinatexym_default(),
                            (4, 1, true) => Coordinate::new_coordinatexyzm_default(),
                            (_, 0, true) => CS::create_dim(d),
                            _ => CS::create_dim_measures(d, k),
                        };
                    }
                    "set" => {
                        let k = a[1].u();
                        let x = self.f(k, a[2].i());
                        match (self.r.chance(1, 2), k) {
                            (true, 0) => self.c.set_x(x),
                            (true, 1) => self.c.set_y(x),
                            (true, 2) => self.c.set_z(x),
                            (true, 3) => self.c.set_m(x),
                            _ => self.c.set_ordinate(k as i32, x),
                        }
                    }
                    "miss" => self.c.set_ordinate(a[1].i() as i32, 7.0),
                    "copy" => { let c = Coordinate::from_coordinate(&self.c); self.c = c; }
                    "pos" => {
                        let o = self.coord(&a[1]);
                        let m = self.f(3, a[2].i());
                        self.c.set_coordinate(&o);
                        self.c.set_m(m);
                    }
                    x => panic!("harness: mut {}", x),
                }
                self.obs()
            }
            "rel" => {
                let (p, q) = (self.coord(&a[0]), self.coord(&a[1]));
                J::A(vec![bit(p.equals_2d(&q)), bit(p.equals_3d(&q)), J::from(p.compare_to(&q).signum()), self.len(p.distance(&q)),
                    if self.wide() { J::s("skip") } else { self.len(p.distance_3d(&q)) }])
            }
            "tol" => {
                let (p, q) = (self.coord(&a[0]), self.coord(&a[1]));
                let t = self.f(0, a[2].i());
                if p.equal_in_z(&q, t) != p.equal_in_coordinate_z(&q, t) { return J::I(BAD); }
                J::A(vec![bit(p.equals_2d_with_tolerance(&q, t)), bit(p.equal_in_z(&q, t)), bit(CS::equal(&p, &q, t))])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 3, 40]);
        let ord = |r: &mut Rng, opt: bool| -> i64 { if opt && r.chance(1, 3) { NAN } else { r.range(-m, m) } };
        let co = |r: &mut Rng| -> J { ja![ord(r, false), ord(r, false), ord(r, true), ord(r, true)] };
        match r.below(3) {
            0 => vec![("rel".into(), ja![co(r), co(r)])],
            1 => vec![("tol".into(), J::A(vec![co(r), co(r), J::I(r.range(0, 2 * m))]))],
            _ => (0..r.range(2, 10)).map(|_| ("mut".to_string(), match r.below(10) {
                0 => { let k = *r.pick(&["default", "xy", "xyz", "xym", "xyzm"]); J::A(vec![J::s("new"), J::s(k), co(r)]) }
                1 => { let d = *r.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]); ja!["dim", d.0, d.1] }
                2 => { let k = *r.pick(&[-1i64, 4, 5, 100]); ja!["miss", k, 7] }
                3 => ja!["copy"],
                4 | 5 => { let c = co(r); let v = ord(r, true); J::A(vec![J::s("pos"), c, J::I(v)]) }
                _ => { let k = r.range(0, 3); let v = if k < 2 && r.chance(1, 8) { INF } else { ord(r, k > 1) }; ja!["set", k, v] }
            })).collect(),
        }
    }
}
