//! C30: printed forms.
use super::c12::NAN;
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

enum Ob { Point(Coordinate), Seq(CoordinateArraySequence), Env(Envelope), Model(PrecisionModel), Plane(Vector2D), Space(Vector3D), Long(f64, f64), None }
/// the lattice value v stands for sign(v) * u[|v|], u increasing
pub struct C30 { vars: Vec<Vec<f64>>, u: Vec<f64>, o: Ob, r: Rng }

impl C30 {
    pub fn new(seed: u64, thorough: bool) -> C30 {
        let mut r = Rng::new(seed);
        let mut vars = vec![(0..40).map(|i| i as f64).collect::<Vec<f64>>()];
        for e in [0, -1, -30, 40, 52, 300, -300, -700, 900, -1050] {
            for _ in 0..if thorough { 8 } else { 2 } {
                let wide = r.chance(1, 3);
                let mut u: Vec<f64> = (0..40).map(|_| {
                    let m = 1 + (r.next() >> *r.pick(&[11, 12, 20, 40, 60])) as i64;
                    let k = e + if wide { r.range(-60, 60) as i32 } else { 0 };
                    m as f64 * crate::emb::p2(k - 52)
                }).filter(|x: &f64| x.is_finite() && *x > 0.0).collect();
                u.push(0.0);
                u.sort_by(|a, b| a.partial_cmp(b).unwrap());
                u.dedup();
                if u.len() > 12 { vars.push(u); }
            }
        }
        C30 { u: vars[0].clone(), vars, o: Ob::None, r }
    }
    fn f(&self, v: i64) -> f64 {
        if v == NAN { return f64::NAN; }
        let x = self.u[v.unsigned_abs() as usize];
        if v < 0 { -x } else { x }
    }
    fn inv(&self, x: f64) -> i64 {
        if x.is_nan() { return NAN; }
        match self.u.iter().position(|y| *y == x.abs()) { Some(i) => if x < 0.0 { -(i as i64) } else { i as i64 }, None => BAD }
    }
    fn coord(&mut self, a: &J) -> Coordinate {
        let o: Vec<f64> = a.ints().iter().map(|v| self.f(*v)).collect();
        match (o[2].is_nan(), o[3].is_nan()) {
            (true, true) => Coordinate::new_xy(o[0], o[1]),
            (false, true) => Coordinate::new_xyz(o[0], o[1], o[2]),
            (true, false) => Coordinate::new_xym(o[0], o[1], o[3]),
            _ => Coordinate::new_xyzm(o[0], o[1], o[2], o[3]),
        }
    }
    /// words and numbers of a text; blanks only separate
    fn tokens(&self, s: &str) -> J {
        let c: Vec<char> = s.chars().collect();
        let (mut i, mut out) = (0, vec![]);
        while i < c.len() {
            if c[i].is_whitespace() { i += 1; continue; }
            let j = i;
            if c[i].is_ascii_digit() || (c[i] == '-' && i + 1 < c.len() && c[i + 1].is_ascii_digit()) {
                i += 1;
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.' || (c[i] == 'e' || c[i] == 'E') || ((c[i] == '-' || c[i] == '+') && (c[i - 1] == 'e' || c[i - 1] == 'E'))) { i += 1; }
                let w: String = c[j..i].iter().collect();
                out.push(J::I(w.parse::<f64>().map_or(BAD, |x| self.inv(x))));
            } else if c[i].is_alphabetic() {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '-') { i += 1; }
                let w: String = c[j..i].iter().collect();
                out.push(if w == "NaN" { J::I(NAN) } else { J::s(&w) });
            } else {
                i += 1;
                out.push(J::s(&c[j..i].iter().collect::<String>()));
            }
        }
        J::A(out)
    }
    fn text(&self) -> J {
        let s = match &self.o {
            Ob::Point(c) => c.to_string(),
            Ob::Seq(s) => s.to_string(),
            Ob::Env(e) => e.to_string(),
            Ob::Model(m) => m.to_string(),
            Ob::Plane(v) => v.to_string(),
            Ob::Space(v) => v.to_string(),
            Ob::Long(h, l) => DD::new_hi_lo(*h, *l).dump(),
            Ob::None => panic!("harness: nothing to print"),
        };
        self.tokens(&s)
    }
}

impl Sut for C30 {
    fn variants(&self) -> usize { self.vars.len() }
    fn begin(&mut self, v: usize) { self.u = self.vars[v].clone(); self.o = Ob::None; }
    fn describe(&self, v: usize) -> String { format!("{:?}", &self.vars[v][..8]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "make" => {
                let d = a[1].a();
                self.o = match a[0].str() {
                    "point" => Ob::Point(self.coord(&a[1])),
                    "seq" => {
                        let p: Vec<Coordinate> = d.iter().map(|c| self.coord(c)).collect();
                        let n = d.first().map_or(3, |c| { let v = c.ints(); 2 + (v[2] != NAN) as i32 + (v[3] != NAN) as i32 });
                        Ob::Seq(match self.r.below(4) {
                            0 => CoordinateArraySequence::new_with_coordinates(&p),
                            1 => CoordinateArraySequence::new_from_coordinate_array_sequence(&CoordinateArraySequence::new_with_coordinates(&p)),
                            2 => CoordinateArraySequence::new_with_coordinates(&p).copy(),
                            _ => CoordinateArraySequence::new_with_coordinates_dimension_measures(p, n, (n == 4) as i32),
                        })
                    }
                    "env" => {
                        let o: Vec<f64> = a[1].ints().iter().map(|v| self.f(*v)).collect();
                        Ob::Env(match self.r.below(4) {
                            0 => Envelope::new_xy(o[1], o[0], o[2], o[3]),
                            1 => Envelope::new_coordinates(&Coordinate::new_xy(o[0], o[3]), &Coordinate::new_xy(o[1], o[2])),
                            2 => Envelope::new_envelope(&Envelope::new_xy(o[0], o[1], o[2], o[3])),
                            _ => Envelope::new_xy(o[0], o[1], o[3], o[2]),
                        })
                    }
                    "model" => Ob::Model(match d[0].str() {
                        "floating" => if self.r.chance(1, 2) { PrecisionModel::default() } else { PrecisionModel::new_with_type(PrecisionModelType::Floating) },
                        "single" => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
                        _ => PrecisionModel::new_with_scale(self.f(d[1].i())),
                    }),
                    "plane" => { let (x, y) = (self.f(d[0].i()), self.f(d[1].i()));
                        Ob::Plane(if self.r.chance(1, 2) { Vector2D::new_from_xy(x, y) } else { Vector2D::create_from_coodinate(&Coordinate::new_xy(x, y)) }) }
                    "space" => { let (x, y, z) = (self.f(d[0].i()), self.f(d[1].i()), self.f(d[2].i()));
                        Ob::Space(if self.r.chance(1, 2) { Vector3D::new_from_xyz(x, y, z) } else { Vector3D::create_from_coordinate(&Coordinate::new_xyz(x, y, z)) }) }
                    "long" => Ob::Long(self.f(d[0].i()), self.f(d[1].i())),
                    x => panic!("harness: make {}", x),
                };
            }
            "set" => {
                let v: Vec<i64> = a.iter().map(|x| x.i()).collect();
                let (i, k) = (v[0], v[1]);
                let x = self.f(v[2]);
                let e = Coordinate::new_xy(if k.unsigned_abs() < self.u.len() as u64 { self.f(k) } else { 0.0 }, x);
                match &mut self.o {
                    Ob::Point(c) => c.set_ordinate(k as i32, x),
                    Ob::Seq(s) => if i >= 1 && i <= s.size() as i64 { s.set_ordinate(i as usize - 1, k as i32, x) },
                    Ob::Env(n) => n.expand_to_include_coordinate(&e),
                    _ => {}
                }
            }
            x => panic!("harness: op {}", x),
        }
        self.text()
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = 10;
        let lay = r.below(4);
        let p = |r: &mut Rng| -> J { ja![r.range(-m, m), r.range(-m, m), if lay % 2 == 0 { NAN } else { r.range(-m, m) }, if lay == 3 { r.range(-m, m) } else { NAN }] };
        let k = *r.pick(&["point", "seq", "seq", "env", "model", "plane", "space", "long"]);
        let d = match k {
            "point" => p(r),
            "seq" => { let n = r.below(7); J::A((0..n).map(|_| p(r)).collect()) }
            "env" => { let (x, y) = (r.range(-m, m), r.range(-m, m)); ja![x, r.range(x, m), y, r.range(y, m)] }
            "model" => ja![*r.pick(&["floating", "single", "fixed"]), r.range(1, m)],
            "space" => ja![r.range(-m, m), r.range(-m, m), r.range(-m, m)],
            _ => ja![r.range(-m, m), r.range(-m, m)],
        };
        let n = match k { "seq" => d.a().len() as i64, _ => 1 };
        let mut v = vec![("make".to_string(), ja![k, d])];
        if n > 0 && (k == "point" || k == "seq" || k == "env") {
            for _ in 0..r.below(6) {
                let top = if k == "env" { m } else if lay % 2 == 1 { 2 } else { 1 };
                v.push(("set".into(), ja![r.range(1, n), r.range(if k == "env" { -m } else { 0 }, top), r.range(-m, m)]));
            }
        }
        v
    }
}
