//! C12: coordinate sequences, array-backed and packed.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateArraySequence as Arr, CoordinateArraySequenceFactory as AF, CoordinateArraySequences as AU,
    PackedCoordinateSequenceDouble as Pack, PackedCoordinateSequenceFactory as PF, PackedCoordinateSequences as PU, *};

pub const NAN: i64 = -99;

#[derive(Clone)]
pub enum S { A(Arr), P(Pack) }
macro_rules! on { ($s:expr, $q:ident, $u:ident => $e:expr) => { match $s { S::A($q) => { #[allow(unused)] use AU as $u; $e } S::P($q) => { #[allow(unused)] use PU as $u; $e } } } }

/// number of ordinates, of measures
pub fn layout(ly: &str) -> (i32, i32) { match ly { "XY" => (2, 0), "XYZ" => (3, 0), "XYM" => (3, 1), "XYZM" => (4, 1), x => panic!("harness: layout {}", x) } }
pub fn axis(ly: &str, k: usize) -> usize { if ly == "XYM" && k == 2 { 3 } else { k } }

/// per-ordinate order embeddings
#[derive(Clone)]
pub struct Ords(pub Vec<OrdEmb>);
impl Ords {
    pub fn sets(seed: u64, k: usize, lo: i64, hi: i64) -> Vec<Ords> {
        let o = orders(seed, 4 * k, lo, hi);
        let mut v = vec![Ords(vec![o[0].clone(); 4])];
        for i in 0..k { v.push(Ords((1..5).map(|j| o[4 * i + j].clone()).collect())); }
        v
    }
    pub fn f(&self, ax: usize, v: i64) -> f64 { if v == NAN { f64::NAN } else { self.0[ax].f(v) } }
    pub fn inv(&self, ax: usize, x: f64) -> i64 { if x.is_nan() { NAN } else { self.0[ax].inv(x).unwrap_or(BAD) } }
    pub fn coord(&self, ly: &str, c: &J) -> Coordinate {
        let v = c.ints();
        let g = |k: usize| self.f(axis(ly, k), v[k]);
        match ly {
            "XY" => Coordinate::new_xy(g(0), g(1)),
            "XYZ" => Coordinate::new_xyz(g(0), g(1), g(2)),
            "XYM" => Coordinate::new_xym(g(0), g(1), g(2)),
            _ => Coordinate::new_xyzm(g(0), g(1), g(2), g(3)),
        }
    }
    pub fn coords(&self, ly: &str, c: &J) -> Vec<Coordinate> { c.a().iter().map(|q| self.coord(ly, q)).collect() }
    /// the tuple of a coordinate; ordinates outside the layout must be missing
    pub fn un(&self, ly: &str, c: &Coordinate) -> J {
        let all = [self.inv(0, c.x), self.inv(1, c.y), self.inv(2, c.z), self.inv(3, c.m)];
        let used: Vec<usize> = (0..layout(ly).0 as usize).map(|k| axis(ly, k)).collect();
        for k in 2..4 { if !used.contains(&k) && all[k] != NAN { return J::I(BAD); } }
        J::from(used.iter().map(|k| all[*k]).collect::<Vec<i64>>())
    }
    pub fn uns(&self, ly: &str, v: &[Coordinate]) -> J { J::A(v.iter().map(|c| self.un(ly, c)).collect()) }
}

pub fn inferred(v: &[Coordinate], ly: &str) -> bool {
    let want = match ly { "XY" => (2, 0), "XYZ" => (3, 0), "XYM" => (3, 1), _ => (4, 1) };
    !v.is_empty() && v.iter().all(|c| {
        let (z, m) = (!c.z.is_nan(), !c.m.is_nan());
        // a coordinate without a position does not tell its layout
        !c.x.is_nan() && !c.y.is_nan() && (match (z, m) { (false, false) => (2, 0), (true, false) => (3, 0), (false, true) => (3, 1), _ => (4, 1) }) == want
    })
}

pub struct C12 { ords: Vec<Ords>, o: Ords, packed: bool, ly: String, s: Option<S>, r: Rng }

impl C12 {
    pub fn new(seed: u64, thorough: bool) -> C12 {
        let ords = Ords::sets(seed, if thorough { 16 } else { 4 }, -60, 60);
        C12 { o: ords[0].clone(), ords, packed: false, ly: String::new(), s: None, r: Rng::new(seed) }
    }
    /// build a sequence by one of the equivalent routes
    fn build(&mut self, ly: &str, t: &J) -> S {
        let (d, m) = layout(ly);
        let v = self.o.coords(ly, t);
        let n = v.len();
        let ord = |i: usize, k: usize| self.o.f(axis(ly, k), t.a()[i].a()[k].i());
        let inf = inferred(&v, ly);
        if self.packed {
            let flat: Vec<f64> = (0..n).flat_map(|i| (0..d as usize).map(move |k| (i, k))).map(|(i, k)| ord(i, k)).collect();
            S::P(match self.r.below(7) {
                0 => Pack::new_f64_with_coordinates_dimension_measures(&flat, d, m),
                1 => {
                    // ordinates outside of the layout have no place in it
                    let mut w = v.clone();
                    if self.r.chance(1, 2) { for c in w.iter_mut() { if d - m == 2 { c.z = 7.5; } if m == 0 { c.m = 8.5; } } }
                    Pack::new_coordinates_with_dimension_measures(&w, d, m)
                }
                2 => PF::create_double_coordinate_dimension_measures(&flat, d, m),
                3 if inf => PF::create_double_from_coordinates(&v),
                4 if m == i32::max(0, d - 3) => Pack::new_coordinates_with_dimension(&v, d),
                5 if ly == "XYZ" => Pack::new_with_coordinates(&v),
                6 if m == i32::max(0, d - 3) => { let mut s = PF::create_with_size_dimension(n, d); for i in 0..n { for k in 0..d { s.set_ordinate(i, k, ord(i, k as usize)); } } s }
                _ => {
                    let mut s = if self.r.chance(1, 2) { PF::create_with_size_dimension_measures(n, d, m) } else { Pack::new_with_size_dimension_measures(n, d, m) };
                    for k in 0..d { for i in 0..n { s.set_ordinate(i, k, ord(i, k as usize)); } }
                    s
                }
            })
        } else {
            S::A(match self.r.below(6) {
                0 => Arr::new_with_coordinates_dimension_measures(v, d, m),
                1 if inf => Arr::new_with_coordinates(&v),
                2 if inf => AF::create_from_coordinates(&v),
                3 if inf => Arr::new_with_coordinates_dimension(v, d),
                4 => { let s = Arr::new_with_coordinates_dimension_measures(v, d, m); if self.r.chance(1, 2) { AF::create_from_coordinate_array_sequence(&s) } else { Arr::new_from_coordinate_array_sequence(&s) } }
                _ => {
                    let mut s = if self.r.chance(1, 2) { AF::create_with_size_dimension_measures(n, d, m) } else { Arr::new_with_size_dimension_measures(n, d, m) };
                    for i in 0..n { for k in 0..d { s.set_ordinate(i, k, ord(i, k as usize)); } }
                    s
                }
            })
        }
    }
    /// the content as every reading route shows it
    fn obs(&mut self, ly: &str, s: &S) -> J {
        let (d, m) = layout(ly);
        let n = on!(s, q, U => q.size());
        if on!(s, q, U => (q.get_dimension(), q.get_measures())) != (d, m) { return ja![J::I(BAD), J::from(on!(s, q, U => q.get_dimension()))]; }
        let by_ord = J::A((0..n).map(|i| J::from((0..d).map(|k| self.o.inv(axis(ly, k as usize), on!(s, q, U => q.get_ordinate(i, k)))).collect::<Vec<i64>>())).collect());
        let arr = on!(s, q, U => q.to_coordinate_array());
        if self.o.uns(ly, &arr) != by_ord { return ja![J::I(BAD), self.o.uns(ly, &arr), by_ord]; }
        let at: Vec<Coordinate> = (0..n).map(|i| match s { S::A(q) => q.get_coordinate_index(i), S::P(q) => q.get_coordinate_by_index(i) }).collect();
        if self.o.uns(ly, &at) != by_ord { return ja![J::I(BAD), self.o.uns(ly, &at), by_ord]; }
        match s {
            S::A(q) => {
                let at: Vec<Coordinate> = (0..n).map(|i| q.get_coordinate_copy(i)).collect();
                let into: Vec<Coordinate> = (0..n).map(|i| { let mut c = Coordinate::new_xyzm(1.5, 2.5, f64::NAN, f64::NAN); q.get_coordinate_index_coordinate(i, &mut c); c }).collect();
                let fields: Vec<Coordinate> = (0..n).map(|i| Coordinate::new_xyzm(q.get_x(i), q.get_y(i), q.get_z(i), q.get_m(i))).collect();
                for w in [&at, &into, &fields] { if self.o.uns(ly, w) != by_ord { return ja![J::I(BAD), self.o.uns(ly, w), by_ord]; } }
                if q.has_m() != (m > 0) || q.has_z() != (d - m > 2) { return J::I(BAD); }
            }
            S::P(q) => {
                let raw = J::A(q.get_raw_coordinates().chunks(d as usize).map(|c| J::from(c.iter().enumerate().map(|(k, x)| self.o.inv(axis(ly, k), *x)).collect::<Vec<i64>>())).collect());
                if raw != by_ord { return ja![J::I(BAD), raw, by_ord]; }
            }
        }
        by_ord
    }
    fn boxed(&self, s: &S) -> J {
        let mut e = Envelope::default();
        match s { S::A(q) => q.expand_envelope(&mut e), S::P(q) => e = q.expand_envelope(&e) }
        if e.is_null() { return ja![]; }
        J::from(vec![self.o.inv(0, e.get_min_x()), self.o.inv(0, e.get_max_x()), self.o.inv(1, e.get_min_y()), self.o.inv(1, e.get_max_y())])
    }
}

impl Sut for C12 {
    fn variants(&self) -> usize { 2 * self.ords.len() }
    fn begin(&mut self, v: usize) { self.packed = v % 2 == 1; self.o = self.ords[v / 2].clone(); self.s = None; }
    fn describe(&self, v: usize) -> String { format!("{}, ordinate tables {}", if v % 2 == 1 { "packed" } else { "array" }, v / 2) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        if op == "up" {
            let ly = self.ly.clone();
            let mut s = self.s.take().unwrap();
            match a[0].str() {
                "set" => {
                    let (i, k) = (a[1].u(), a[2].i());
                    let v = self.o.f(axis(&ly, k as usize), a[3].i());
                    on!(&mut s, q, U => q.set_ordinate(i, k as i32, v));
                }
                "swap" => on!(&mut s, q, U => U::swap(q, a[1].u(), a[2].u())),
                "rev" => on!(&mut s, q, U => U::reverse(q)),
                "copy" => {
                    let src = self.build(&ly, &a[1]);
                    match (&src, &mut s) {
                        (S::A(p), S::A(q)) => AU::copy(p, a[2].u(), q, a[3].u(), a[4].u()),
                        (S::P(p), S::P(q)) => PU::copy(p, a[2].u(), q, a[3].u(), a[4].u()),
                        _ => panic!("harness: kinds"),
                    }
                    if self.obs(&ly, &src) != a[1] { return J::I(BAD); }
                }
                "self" => {
                    let src = s.clone();
                    match (&src, &mut s) {
                        (S::A(p), S::A(q)) => AU::copy(p, a[1].u(), q, a[2].u(), a[3].u()),
                        (S::P(p), S::P(q)) => PU::copy(p, a[1].u(), q, a[2].u(), a[3].u()),
                        _ => panic!("harness: kinds"),
                    }
                }
                "scroll" => on!(&mut s, q, U => U::scroll_coordinate_index(q, a[1].u())),
                "force" => on!(&mut s, q, U => U::scroll_coordinate_index_ensure_ring(q, a[1].u(), a[2].b())),
                "to" => { let c = self.o.coord(&ly, &a[1]); on!(&mut s, q, U => U::scroll_coordinate(q, &c)) }
                "ring" => { let before = self.obs(&ly, &s); let n = match &s { S::A(q) => S::A(AU::ensure_valid_ring(q)), S::P(q) => S::P(PU::ensure_valid_ring(q)) }; if self.obs(&ly, &s) != before { return J::I(BAD); } s = n; }
                "extend" => { let n = a[1].u(); s = match &s { S::A(q) => S::A(AU::extend(q, n)), S::P(q) => S::P(PU::extend(q, n)) }; }
                "clone" => {
                    // the copy is independent of what happens to the original
                    let c = if self.r.chance(1, 2) { s.clone() } else { match &s { S::A(q) => S::A(q.copy()), S::P(q) => S::P(q.copy()) } };
                    on!(&mut s, q, U => for i in 0..q.size() { for k in 0..q.get_dimension() { q.set_ordinate(i, k, 0.125); } });
                    s = c;
                }
                x => panic!("harness: up {}", x),
            }
            let o = self.obs(&ly, &s);
            self.s = Some(s);
            return o;
        }
        if op == "alloc" {
            let (n, d, m) = (a[0].u(), a[1].i() as i32, a[2].i() as i32);
            let sk = J::s("skip");
            if self.packed {
                if d - m < 2 {
                    let base = PackedCoordinateSequence::new_with_dimension_measures(d, m).is_some();
                    return if base { J::I(BAD) } else { J::A(vec![sk.clone(), sk.clone(), sk.clone(), sk]) };
                }
                let s = [Pack::new_with_size_dimension_measures(n, d, m), PF::create_with_size_dimension_measures(n, d, m)];
                let one = PF::create_with_size_dimension(n, d);
                let e = PF::create_double_from_coordinate_sequence(&PackedCoordinateSequence::new_with_dimension_measures(d, m).unwrap());
                let f = |s: &Pack| ja![s.size() as i64, s.get_dimension(), s.get_measures()];
                let blank = |s: &Pack| s.get_raw_coordinates().len() == n * d as usize;
                if f(&s[0]) != f(&s[1]) || !blank(&s[0]) || !blank(&s[1]) || !blank(&one) || f(&e) != ja![0, d, m] { return J::I(BAD); }
                return J::A(vec![sk.clone(), sk, f(&s[0]), f(&one)]);
            }
            let f = |s: &Arr| ja![s.size() as i64, s.get_dimension(), s.get_measures()];
            // at the origin, with a zero measure where there is one
            let blank = |s: &Arr| (0..s.size()).all(|i| s.get_x(i) == 0.0 && s.get_y(i) == 0.0 && (!s.has_m() || s.get_m(i) == 0.0));
            let (p, q) = (AF::create_with_size_dimension_measures(n, d, m), AF::create_with_size_dimension(n, d));
            if !blank(&p) || !blank(&q) { return J::I(BAD); }
            // the constructors take the layout as given
            if (d, m) == (2, 0) || (d, m) == (3, 0) || (d, m) == (3, 1) || (d, m) == (4, 1) {
                let r = Arr::new_with_size_dimension_measures(n, d, m);
                let c = [Arr::create_coordinate(d, m), r.create_coordinate_default()];
                if f(&r) != ja![n as i64, d, m] || !blank(&r) || c.iter().any(|c| c.x != 0.0 || c.y != 0.0 || c.m.is_nan() != (m == 0)) { return J::I(BAD); }
                if m == 0 { let r = Arr::new_with_size_dimension(n, d); if f(&r) != ja![n as i64, d, 0] || !blank(&r) { return J::I(BAD); } }
                if (d, m) == (3, 0) { let r = Arr::new_with_size(n); if f(&r) != ja![n as i64, 3, 0] || !blank(&r) { return J::I(BAD); } }
            }
            return J::A(vec![f(&p), f(&q), sk.clone(), sk]);
        }
        let ly = a[0].str().to_string();
        match op {
            "init" => { let s = self.build(&ly, &a[1]); let o = self.obs(&ly, &s); self.ly = ly; self.s = Some(s); o }
            "facts" => {
                let s = self.build(&ly, &a[1]);
                let n = a[1].a().len();
                let ring = on!(&s, q, U => U::is_ring(q));
                let mc = on!(&s, q, U => U::min_coordinate(q));
                let idx = if n == 0 { if mc.is_some() { J::I(BAD) } else { J::s("none") } } else {
                    let i = on!(&s, q, U => U::min_coordinate_index_sequence(q));
                    if i >= n || self.o.un(&ly, &mc.unwrap()) != a[1].a()[i] { J::I(BAD) } else { J::from(i) }
                };
                J::A(vec![bit(ring), idx, self.boxed(&s), self.obs(&ly, &s)])
            }
            "find" => { let c = self.o.coord(&ly, &a[1]); let s = self.build(&ly, &a[2]); J::from(on!(&s, q, U => U::index_of(&c, q))) }
            "minin" => { let s = self.build(&ly, &a[1]); J::from(on!(&s, q, U => U::min_coordinate_index_sequence_from_to(q, a[2].u(), a[3].u()))) }
            "eq" => {
                let (p, q) = (self.build(&ly, &a[1]), self.build(&ly, &a[2]));
                let (b, c) = match (&p, &q) {
                    (S::A(p), S::A(q)) => (AU::is_equal(p, q), AU::is_equal(q, p)),
                    (S::P(p), S::P(q)) => (PU::is_equal(p, q), PU::is_equal(q, p)),
                    _ => panic!("harness: kinds"),
                };
                if b != c { J::I(BAD) } else { bit(b) }
            }
            "xeq" => {
                let lz = a[2].str().to_string();
                let (p, q) = (self.build(&ly, &a[1]), self.build(&lz, &a[3]));
                let (b, c) = match (&p, &q) {
                    (S::A(p), S::A(q)) => (AU::is_equal(p, q), AU::is_equal(q, p)),
                    (S::P(p), S::P(q)) => (PU::is_equal(p, q), PU::is_equal(q, p)),
                    _ => panic!("harness: kinds"),
                };
                if b != c { J::I(BAD) } else { bit(b) }
            }
            "xcopy" => {
                // source sequence, destination layout, position, destination, position, length
                let lz = a[2].str().to_string();
                let (src, mut dst) = (self.build(&ly, &a[1]), self.build(&lz, &a[4]));
                match (&src, &mut dst) {
                    (S::A(p), S::A(q)) => AU::copy(p, a[3].u(), q, a[5].u(), a[6].u()),
                    (S::P(p), S::P(q)) => PU::copy(p, a[3].u(), q, a[5].u(), a[6].u()),
                    _ => panic!("harness: kinds"),
                }
                self.obs(&lz, &dst)
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let lys = ["XY", "XYZ", "XYM", "XYZM"];
        let m = *r.pick(&[1, 2, 8]);
        fn c(r: &mut Rng, ly: &str, m: i64) -> J {
            let mut v = vec![J::I(r.range(-m, m)), J::I(r.range(-m, m))];
            for _ in 2..layout(ly).0 { v.push(if r.chance(1, 12) { J::I(NAN) } else { J::I(r.range(-20, 55)) }); }
            J::A(v)
        }
        fn seq(r: &mut Rng, ly: &str, m: i64, n: i64) -> J {
            let mut v: Vec<J> = (0..n).map(|_| c(r, ly, m)).collect();
            spike(r, &mut v);
            if n > 1 && r.chance(1, 2) { let f = v[0].clone(); let k = v.len() - 1; let mut l = v[k].a().to_vec(); l[0] = f.a()[0].clone(); l[1] = f.a()[1].clone(); v[k] = J::A(l); }
            J::A(v)
        }
        let ly = *r.pick(&lys);
        let n = size(r, 0, 8);
        let t = seq(r, ly, m, n);
        match r.below(7) {
            0 => vec![("facts".into(), J::A(vec![J::s(ly), t]))],
            1 => { let k = if n > 0 && r.chance(1, 2) { t.a()[r.below(n as usize)].clone() } else { c(r, ly, m) }; vec![("find".into(), J::A(vec![J::s(ly), k, t]))] }
            2 if n > 0 => { let (p, q) = (r.range(0, n - 1), r.range(0, n - 1)); vec![("minin".into(), J::A(vec![J::s(ly), t, J::I(p.min(q)), J::I(p.max(q))]))] }
            3 if r.chance(1, 2) => {
                let lz = loop { let z = *r.pick(&lys); if z == "XY" || ly == "XY" || z == ly || (z != "XYM" && ly != "XYM") { break z; } };
                let mut u: Vec<J> = t.a().iter().map(|v| { let f = c(r, lz, m); J::A(f.a().iter().enumerate().map(|(k, w)| v.a().get(k).unwrap_or(w).clone()).collect()) }).collect();
                if n > 0 && r.chance(1, 2) { let i = r.below(n as usize); let mut w = u[i].a().to_vec(); let k = r.below(w.len()); w[k] = if k > 1 && r.chance(1, 4) { J::I(NAN) } else { J::I(r.range(-m, m)) }; u[i] = J::A(w); }
                else if r.chance(1, 8) { u.pop(); }
                vec![("xeq".into(), J::A(vec![J::s(ly), t, J::s(lz), J::A(u)]))]
            }
            3 => {
                // sometimes nowhere
                let mut w = t.a().to_vec();
                if n > 0 && r.chance(1, 4) { let i = r.below(n as usize); let mut z = w[i].a().to_vec(); z[r.below(2)] = J::I(NAN); if r.chance(1, 2) { z[0] = J::I(NAN); z[1] = J::I(NAN); } w[i] = J::A(z); }
                let t = J::A(w);
                let mut u = t.a().to_vec();
                if n > 0 && r.chance(2, 3) { let i = r.below(n as usize); let mut w = u[i].a().to_vec(); let k = r.below(w.len()); w[k] = if k > 1 && r.chance(1, 4) { J::I(NAN) } else { J::I(r.range(-m, m)) }; u[i] = J::A(w); }
                else if r.chance(1, 4) { u.push(c(r, ly, m)); }
                vec![("eq".into(), J::A(vec![J::s(ly), t, J::A(u)]))]
            }
            4 if n > 0 => {
                let lz = loop { let z = *r.pick(&lys); if z == "XY" || ly == "XY" || z == ly || (z != "XYM" && ly != "XYM") { break z; } };
                let nz = r.range(1, 6);
                let k = r.range(0, n.min(nz));
                let (p, q) = (r.range(0, n - k), r.range(0, nz - k));
                let d = seq(r, lz, m, nz);
                vec![("xcopy".into(), J::A(vec![J::s(ly), t, J::s(lz), J::I(p), d, J::I(q), J::I(k)]))]
            }
            _ => {
                let mut out = vec![("init".to_string(), J::A(vec![J::s(ly), t.clone()]))];
                let mut n = n;
                // closedness is tracked only as far as the length depends on it
                let mut cur: Vec<J> = t.a().to_vec();
                for _ in 0..size(r, 2, 10) {
                    let closed = |v: &Vec<J>| v.len() > 3 && v[0].a()[0] == v[v.len() - 1].a()[0] && v[0].a()[1] == v[v.len() - 1].a()[1];
                    let u = match r.below(11) {
                        0 if n > 0 => { let i = r.range(0, n - 1); let k = r.range(0, layout(ly).0 as i64 - 1); if k < 2 { break; } ja!["set", i, k, r.range(-50, 50)] }
                        1 | 2 if n > 0 => ja!["swap", r.range(0, n - 1), r.range(0, n - 1)],
                        3 => ja!["rev"],
                        4 if n > 1 => { let ns = r.range(1, 5); let k = r.range(0, n.min(ns)); let s = seq(r, ly, m, ns); J::A(vec![J::s("copy"), s, J::I(r.range(0, ns - k)), J::I(r.range(0, n - k)), J::I(k)]) }
                        5 if n > 1 => { let k = r.range(0, n); ja!["self", r.range(0, n - k), r.range(0, n - k), k] }
                        6 if n > 0 => ja!["scroll", r.range(0, n - 1)],
                        7 if n > 1 => ja!["force", r.range(0, n - 1), r.range(0, 1)],
                        8 => J::A(vec![J::s("to"), c(r, ly, m)]),
                        9 if n > 0 => { let e = if r.chance(1, 3) { n + r.range(0, 3 * n) } else { n + r.range(0, 3) }; if e > 70 { break; } out.push(("up".into(), ja!["extend", e])); n = e; ja!["clone"] }
                        10 => { out.push(("up".into(), ja!["ring"])); let _ = closed(&cur); cur.clear(); if n > 0 { break; } ja!["clone"] }
                        _ => ja!["clone"],
                    };
                    out.push(("up".into(), u));
                }
                out
            }
        }
    }
}
