//! C17: normal forms of lines, segments and polygons.
use super::util::*;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateArraySequence as Arr, *};

pub struct C17 { embs: Vec<[(i64, i32); 2]>, e: [(i64, i32); 2], r: Rng }
impl C17 {
    pub fn new(seed: u64, thorough: bool) -> C17 {
        let mut r = Rng::new(seed ^ 17);
        let mut embs = vec![[(0, 0), (0, 0)]];
        for _ in 0..if thorough { 24 } else { 8 } {
            let mut ax = || { let t = *r.pick(&[1i64, 40, 100000, 1 << 44]); (r.range(-t, t), *r.pick(&[0, 0, -1, 10, -40, 200])) };
            embs.push([ax(), ax()]);
        }
        C17 { e: embs[0], embs, r }
    }
    fn c(&self, p: &J) -> Coordinate {
        let v = p.ints();
        let f = |k: usize| (v[k] + self.e[k].0) as f64 * p2(self.e[k].1);
        if v.len() > 2 { Coordinate::new_xyz(f(0), f(1), v[2] as f64) } else { Coordinate::new_xy(f(0), f(1)) }
    }
    fn cs(&self, t: &J) -> Vec<Coordinate> { t.a().iter().map(|p| self.c(p)).collect() }
    fn un(&self, c: &Coordinate) -> J {
        let g = |k: usize, x: f64| { let u = x / p2(self.e[k].1); if u.is_finite() && u.fract() == 0.0 && u.abs() < 1e15 { u as i64 - self.e[k].0 } else { BAD } };
        J::from(vec![g(0, c.x), g(1, c.y), if c.z.fract() == 0. && c.z.abs() < 1e9 { c.z as i64 } else { BAD }])
    }
    fn uns(&self, v: &[Coordinate]) -> J { J::A(v.iter().map(|c| self.un(c)).collect()) }
    fn ring(&self, t: &J) -> LinearRing {
        let mut v = self.cs(t);
        if let Some(p) = v.first().copied() { v.push(p); }
        LinearRing::new_with_coordinates(&v)
    }
    fn open(&self, g: &LinearRing) -> J {
        let s = self.uns(&g.get_coordinates());
        let n = s.a().len();
        if n == 0 { return s; }
        if n == 1 || s.a()[0] != s.a()[n - 1] || !g.is_closed() { return J::A(vec![J::I(BAD), s]); }
        J::A(s.a()[..n - 1].to_vec())
    }
    fn rings(&self, p: &Polygon) -> J {
        let mut v = vec![self.open(&p.get_exterior_ring())];
        for i in 0..p.get_num_interior_ring() { v.push(self.open(&p.get_interior_ring_n(i))); }
        if v.len() == 1 && v[0].a().is_empty() { return ja![]; }
        J::A(v)
    }
}

impl Sut for C17 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.e = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("offset, scale {:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "norm" => match a[0].str() {
                "L" => {
                    let v = self.cs(&a[1]);
                    let mut l = LineString::new_from_coordinate_sequence(Arr::new_with_coordinates(&v));
                    if self.r.chance(1, 3) { l.normalize(); }
                    l.normalize();
                    self.uns(&l.get_coordinates())
                }
                "S" => {
                    let v = self.cs(&a[1]);
                    let mut s = LineSegment::new_from_coordinates(&v[0], &v[1]);
                    let t = s.clone();
                    if self.r.chance(1, 3) { s.normalize(); }
                    s.normalize();
                    if !s.equals_topo(&t) { return J::I(BAD); }
                    self.uns(&[s.p0, s.p1])
                }
                _ => {
                    let p = a[1].a();
                    let shell = if p.is_empty() { LinearRing::new_with_coordinates(&vec![]) } else { self.ring(&p[0]) };
                    let holes: Vec<LinearRing> = p.iter().skip(1).map(|h| self.ring(h)).collect();
                    let mut g = Polygon::new_with_linear_ring_vec(&shell, &holes);
                    if self.r.chance(1, 2) { g.get_envelope_internal(); }
                    if self.r.chance(1, 3) { g.self_normalize(); }
                    g.self_normalize();
                    self.rings(&g)
                }
            },
            "ring" => {
                let g = self.ring(&a[0]);
                let before = self.uns(&g.get_coordinates());
                let p = Polygon::new_with_linear_ring(&g);
                let n = p.normalized(&g, a[1].b());
                if self.uns(&g.get_coordinates()) != before || self.uns(&p.get_exterior_ring().get_coordinates()) != before { return J::I(BAD); }
                let mut m = g.copy();
                Polygon::normalize(&mut m, a[1].b());
                let (x, y) = (self.open(&n), self.open(&m));
                if x == y { x } else { J::I(BAD) }
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let h = |r: &mut Rng, x: i64, y: i64| ja![x, y, r.range(0, 99)];
        let m = *r.pick(&[1, 2, 9, 60]);
        let ring = |r: &mut Rng| loop {
            let mut v = random_ring(r);
            v.dedup();
            if is_simple(&v) { v.pop(); return v; }
        };
        let tag = |r: &mut Rng, v: &[(i64, i64)]| J::A(v.iter().map(|p| h(r, p.0, p.1)).collect());
        let q = |o: &str, a: Vec<J>| vec![(o.to_string(), J::A(a))];
        match r.below(6) {
            0 | 1 => {
                let n = size(r, 0, 9);
                let mut v: Vec<(i64, i64)> = (0..n).map(|_| (r.range(-m, m), r.range(-m, m))).collect();
                // mostly palindromes with one deviation
                if r.chance(1, 2) { let n = v.len(); for i in 0..n / 2 { v[n - 1 - i] = v[i]; } if n > 0 && r.chance(3, 4) { let i = r.below(n); v[i] = (r.range(-m, m), r.range(-m, m)); } }
                let t = tag(r, &v);
                q("norm", vec![J::s("L"), t])
            }
            2 => { let v: Vec<(i64, i64)> = (0..2).map(|_| (r.range(-m, m), r.range(-m, m))).collect(); let t = tag(r, &v); q("norm", vec![J::s("S"), t]) }
            3 => { let v = ring(r); let t = tag(r, &v); let c = bit(r.chance(1, 2)); q("ring", vec![t, c]) }
            _ => {
                let mut seen: Vec<Vec<(i64, i64)>> = vec![];
                let mut p = vec![];
                for i in 0..size(r, 1, 6) {
                    let mut v = ring(r);
                    // holes that share a prefix: move one vertex of an earlier hole
                    if i > 1 && r.chance(1, 3) { let mut w: Vec<(i64, i64)> = seen[r.below(seen.len())].clone(); let k = r.below(w.len()); w[k] = (w[k].0 + 1, w[k].1); let mut c = w.clone(); c.push(c[0]); if is_simple(&c) { v = w; } }
                    let mut key = v.clone();
                    key.sort();
                    if seen.iter().any(|s| { let mut s = s.clone(); s.sort(); s == key }) { continue; }
                    p.push(tag(r, &v));
                    seen.push(v);
                }
                // empty holes and holes twice
                for k in 0..2 { if p.len() > k && r.chance(1, 6) { let i = if k == 0 { 1 } else { 1 + r.below(p.len() - 1) }; let h = if k == 0 { ja![] } else { p[i].clone() }; let j = 1 + r.below(p.len()); p.insert(j, h); } }
                q("norm", vec![J::s("A"), J::A(p)])
            }
        }
    }
}
