//! Exact embeddings of the integer lattice of the specifications into f64 coordinates.
//!
//! Every embedding maps a lattice point to coordinates that are exactly representable (and whose
//! differences are), so a statement about lattice points carries over without any rounding.
//!  * similarity: x -> s*(D x + t), D one of the 8 symmetries of the square, s a power of two;
//!  * affine: additionally D may be any integer matrix of determinant +-1 with large entries.
//!    Incidence, orientation (up to the sign of det), betweenness are preserved exactly, but the
//!    points become nearly collinear with huge coordinates.
use crate::rng::Rng;
use geos_rs::verif::Coordinate;

#[derive(Clone, Copy, Debug)]
pub struct Emb {
    pub a: i64, pub b: i64, pub c: i64, pub d: i64,
    pub tx: i64, pub ty: i64,
    pub k: i32, // scale 2^k
    pub similar: bool,
    pub exact: bool, // products of coordinate differences and of coordinates are exact
}

pub fn p2(k: i32) -> f64 { 2f64.powi(k) }

impl Emb {
    pub fn id() -> Emb { Emb { a: 1, b: 0, c: 0, d: 1, tx: 0, ty: 0, k: 0, similar: true, exact: true } }
    pub fn det(&self) -> i64 { self.a * self.d - self.b * self.c }
    pub fn s(&self) -> f64 { p2(self.k) }
    /// length of the image of a unit vector (similarities and `turned`)
    pub fn unit(&self) -> f64 { (self.det().abs() as f64).sqrt() * self.s() }
    pub fn xy(&self, i: i64, j: i64) -> (f64, f64) {
        let x = self.a as i128 * i as i128 + self.b as i128 * j as i128 + self.tx as i128;
        let y = self.c as i128 * i as i128 + self.d as i128 * j as i128 + self.ty as i128;
        assert!(x.abs() <= 1 << 53 && y.abs() <= 1 << 53, "embedding out of range");
        (x as f64 * self.s(), y as f64 * self.s())
    }
    pub fn pt(&self, i: i64, j: i64) -> Coordinate { let (x, y) = self.xy(i, j); Coordinate::new_xy(x, y) }
    /// A real-valued lattice point (only for similarities, used with a tolerance).
    pub fn unf(&self, x: f64, y: f64) -> (f64, f64) {
        let det = self.det() as f64;
        let u = x / self.s() - self.tx as f64;
        let v = y / self.s() - self.ty as f64;
        ((self.d as f64 * u - self.b as f64 * v) / det, (-self.c as f64 * u + self.a as f64 * v) / det)
    }
    /// The exact lattice point of a coordinate, if it is one.
    pub fn inv(&self, x: f64, y: f64) -> Option<(i64, i64)> {
        let u = x / self.s();
        let v = y / self.s();
        if !(u.is_finite() && v.is_finite()) || u.fract() != 0.0 || v.fract() != 0.0 { return None; }
        if u.abs() > 9.0e15 || v.abs() > 9.0e15 { return None; }
        let u = u as i64 as i128 - self.tx as i128;
        let v = v as i64 as i128 - self.ty as i128;
        let det = self.det() as i128;
        let i = self.d as i128 * u - self.b as i128 * v;
        let j = -(self.c as i128) * u + self.a as i128 * v;
        if i % det != 0 || j % det != 0 { return None; }
        let (i, j) = (i / det, j / det);
        Some((i as i64, j as i64))
    }
    pub fn hand(&self) -> i64 { (self.a as i128 * self.d as i128 - self.b as i128 * self.c as i128).signum() as i64 }
    pub fn holds(&self, i: i64, j: i64) -> bool {
        let x = self.a as i128 * i as i128 + self.b as i128 * j as i128 + self.tx as i128;
        let y = self.c as i128 * i as i128 + self.d as i128 * j as i128 + self.ty as i128;
        x.abs() <= 1 << 53 && y.abs() <= 1 << 53
    }
    fn fits(&self, m: i64) -> bool {
        let x = (self.a.abs() as i128 + self.b.abs() as i128) * m as i128 + self.tx.abs() as i128;
        let y = (self.c.abs() as i128 + self.d.abs() as i128) * m as i128 + self.ty.abs() as i128;
        x <= 1 << 51 && y <= 1 << 51
    }
}

pub const DIHEDRAL: [(i64, i64, i64, i64); 8] = [
    (1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1),
    (0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0),
];

/// similarities in which products and sums of products of coordinates stay exact
pub fn similar_small(seed: u64, n: usize) -> Vec<Emb> {
    let mut r = Rng::new(seed ^ 0x51);
    let mut v = vec![Emb::id()];
    for i in 0..n {
        let m = DIHEDRAL[i % 8];
        let t = match i % 4 { 0 => 0, 1 => 64, 2 => 4096, _ => 100000 };
        let k = *r.pick(&[0, 0, -1, 3, 12, -20, 40, -60]);
        v.push(Emb { a: m.0, b: m.1, c: m.2, d: m.3, tx: r.range(-t, t), ty: r.range(-t, t), k, similar: true, exact: true });
    }
    v
}

/// similarities with large offsets and extreme scales: only differences of coordinates are exact
pub fn similar_big(seed: u64, n: usize) -> Vec<Emb> {
    let mut r = Rng::new(seed ^ 0x52);
    let mut v = vec![];
    for i in 0..n {
        let m = DIHEDRAL[(i + 3) % 8];
        let t: i64 = 1 << r.range(20, 50);
        let k = *r.pick(&[0, 0, -10, -22, -49, 30, 150, -150]);
        v.push(Emb { a: m.0, b: m.1, c: m.2, d: m.3, tx: r.range(-t, t), ty: r.range(-t, t), k, similar: true, exact: false });
    }
    v
}

/// similarities that turn by an arbitrary angle and blow up (multiplication with a Gaussian
/// integer): the coordinates and their differences are exact, products of them are not
pub fn turned(seed: u64, n: usize, bits: i64) -> Vec<Emb> {
    let mut r = Rng::new(seed ^ 0x55);
    (0..n).map(|_| {
        let m: i64 = 1 << r.range(2, bits);
        let (a, b) = loop { let p = (r.range(-m, m), r.range(-m, m)); if p.0 != 0 && p.1 != 0 { break p; } };
        let q = if r.chance(1, 2) { 1 } else { -1 };
        let t = if r.chance(1, 2) { 0 } else { m };
        Emb { a, b: -b * q, c: b, d: a * q, tx: r.range(-t, t), ty: r.range(-t, t), k: *r.pick(&[0, 0, -20, 30, -90]), similar: false, exact: false }
    }).collect()
}

/// unimodular affine maps with entries of very different sizes; `m` bounds the lattice coordinates
pub fn affine(seed: u64, n: usize, m: i64) -> Vec<Emb> {
    let mut r = Rng::new(seed ^ 0x53);
    let mut v = vec![];
    while v.len() < n {
        let (mut a, mut b, mut c, mut d) = { let q = DIHEDRAL[r.below(8)]; (q.0 as i128, q.1 as i128, q.2 as i128, q.3 as i128) };
        let steps = r.range(1, 3);
        for st in 0..steps {
            let bits = r.range(1, 24);
            let k = (r.range(1, 1 << bits) * if r.chance(1, 2) { 1 } else { -1 }) as i128;
            if st % 2 == 0 { a += k * c; b += k * d; } else { c += k * a; d += k * b; }
        }
        if [a, b, c, d].iter().any(|x| x.abs() > 1 << 48) { continue; }
        let t: i64 = if r.chance(1, 2) { 0 } else { 1 << r.range(1, 50) };
        let e = Emb { a: a as i64, b: b as i64, c: c as i64, d: d as i64, tx: if t == 0 { 0 } else { r.range(-t, t) }, ty: if t == 0 { 0 } else { r.range(-t, t) },
            k: *r.pick(&[0, 0, 0, -20, -45, 40, 200, -200]), similar: false, exact: false };
        if !e.fits(m) { continue; }
        v.push(e);
    }
    v
}

/// how far a determinant taken in doubles strays to the wrong sign, beside its products, over lattice triples
fn strays(e: &Emb, m: i64, mid: i64, r: &mut Rng, tries: usize) -> f64 {
    let mut worst = 0.0;
    for _ in 0..tries {
        // two points on one side, one on the other
        let l: Vec<(i64, i64)> = (0..3).map(|i| (mid + if i < 2 { m } else { -m }, mid + r.range(-m, m))).collect();
        let p: Vec<(f64, f64)> = l.iter().map(|q| e.xy(q.0, q.1)).collect();
        let truth = e.hand() * ((l[0].0 - l[2].0) * (l[1].1 - l[2].1) - (l[0].1 - l[2].1) * (l[1].0 - l[2].0)).signum();
        let (left, right) = ((p[0].0 - p[2].0) * (p[1].1 - p[2].1), (p[0].1 - p[2].1) * (p[1].0 - p[2].0));
        if left * right <= 0.0 || truth == 0 { continue; }
        let stray = -(truth as f64) * (left - right) / (left.abs() + right.abs());
        if stray > worst { worst = stray; }
    }
    worst
}

/// Nearly flat images with coordinates up to 2^53, whose differences need 54 bits and so are not
/// doubles; the determinant is tiny beside the products (but not beside what two doubles resolve).
/// for lattice points within m of (mid, mid)
pub fn full(seed: u64, n: usize, m: i64, mid: i64) -> Vec<Emb> {
    let mut r = Rng::new(seed ^ 0x55);
    let mut v = vec![];
    let (mut best, mut tried): (Option<(Emb, f64)>, usize) = (None, 0);
    while v.len() < n {
        let top = (1i64 << 52) / m;
        let (a, b) = (r.range(-top, top), r.range(-top, top));
        let ratio = match r.below(3) { 0 => r.f01() * 2.0 - 1.0, 1 => 1.0 - p2(-(r.range(1, 40) as i32)), _ => r.range(-1, 1) as f64 };
        // differences just above 2^53 lose most
        let (a, b, ratio) = if v.len() % 3 == 0 { let b = r.range(-top / 60, top / 60); (top + (top as f64 * (0.03 + 0.03 * r.f01())) as i64, b, 1.0 + (r.f01() - 0.5) * 0.04) } else { (a, b, ratio) };
        let (c, d) = ((a as f64 * ratio) as i64 + r.range(-2, 2), (b as f64 * ratio) as i64 + r.range(-2, 2));
        let (a, b, c, d) = if r.chance(1, 2) { (a, b, c, d) } else { (c, d, a, b) };
        let t = 1i64 << 40;
        let e = Emb { a, b, c, d, tx: r.range(-t, t) - mid * (a + b), ty: r.range(-t, t) - mid * (c + d), k: *r.pick(&[0, -52, -100, 60]), similar: false, exact: false };
        if (a as i128 * d as i128 - b as i128 * c as i128).abs() < 1 << 30 || [(m, m), (m, -m), (-m, m), (-m, -m)].iter().any(|q| !e.holds(mid + q.0, mid + q.1)) { continue; }
        // one in three is the worst of many
        if v.len() % 3 == 0 {
            let score = strays(&e, m, mid, &mut r, 12);
            if best.map_or(true, |(_, s)| s < score) { best = Some((e, score)); }
            tried += 1;
            if tried < 2000 { continue; }
            v.push(best.unwrap().0);
            best = None; tried = 0;
        } else { v.push(e); }
    }
    v
}

/// Strictly increasing tables of f64, for operations that only depend on the order of values.
#[derive(Clone, Debug)]
pub struct OrdEmb { pub t: Vec<f64>, pub lo: i64 }
impl OrdEmb {
    pub fn f(&self, i: i64) -> f64 { self.t[(i - self.lo) as usize] }
    pub fn inv(&self, x: f64) -> Option<i64> {
        self.t.iter().position(|y| *y == x).map(|p| p as i64 + self.lo)
    }
}
pub fn orders(seed: u64, n: usize, lo: i64, hi: i64) -> Vec<OrdEmb> {
    let mut r = Rng::new(seed ^ 0x54);
    let len = (hi - lo + 1) as usize;
    let mut v = vec![OrdEmb { t: (lo..=hi).map(|x| x as f64).collect(), lo }];
    for q in 0..n {
        let mut t: Vec<f64> = vec![];
        while t.len() < len {
            let x = match q % 5 {
                0 => (r.f01() - 0.5) * 200.0,
                1 => (r.f01() - 0.5) * 2f64.powi(r.range(-60, 60) as i32),
                2 => 1.0e6 + r.range(0, 1000) as f64 * p2(-20),
                3 => -(1.0 + r.range(0, 4 * len as i64) as f64 * f64::EPSILON),
                _ => r.range(-20, 20) as f64 * *r.pick(&[1.0, 1e-12, 1e12, 1e100, 1e-100]),
            };
            let x = if x == 0.0 { 0.0 } else { x };
            if !t.contains(&x) { t.push(x); }
        }
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.push(OrdEmb { t, lo });
    }
    v
}
