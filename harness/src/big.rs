//! Exact dyadic numbers: m * 2^e with an integer m of any size.
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Big { neg: bool, m: Vec<u32>, e: i64 }

fn trim(v: &mut Vec<u32>) { while v.last() == Some(&0) { v.pop(); } }
fn cmpm(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn addm(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        v.push(s as u32);
        c = s >> 32;
    }
    v.push(c as u32);
    trim(&mut v);
    v
}
fn subm(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0i64;
    for i in 0..a.len() {
        let s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 + c;
        v.push(s as u32);
        c = s >> 32;
    }
    trim(&mut v);
    v
}
fn shl(a: &[u32], k: u64) -> Vec<u32> {
    let mut v = vec![0u32; (k / 32) as usize];
    let (s, mut c) = (k % 32, 0u64);
    for x in a { let y = ((*x as u64) << s) | c; v.push(y as u32); c = y >> 32; }
    v.push(c as u32);
    trim(&mut v);
    v
}

impl Big {
    pub fn int(x: i64) -> Big {
        let u = x.unsigned_abs();
        let mut m = vec![u as u32, (u >> 32) as u32];
        trim(&mut m);
        Big { neg: x < 0, m, e: 0 }
    }
    pub fn of(x: f64) -> Big {
        assert!(x.is_finite());
        let b = x.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i64;
        let f = b & ((1 << 52) - 1);
        let (f, ex) = if ex == 0 { (f, -1074) } else { (f | 1 << 52, ex - 1075) };
        let mut r = Big::int(f as i64);
        r.neg = x < 0.0;
        r.e = ex;
        r
    }
    pub fn zero(&self) -> bool { self.m.is_empty() }
    pub fn scale(mut self, k: i64) -> Big { self.e += k; self }
    pub fn neg(mut self) -> Big { self.neg = !self.neg; self }
    pub fn abs(mut self) -> Big { self.neg = false; self }
    pub fn add(&self, o: &Big) -> Big {
        let e = self.e.min(o.e);
        let (a, b) = (shl(&self.m, (self.e - e) as u64), shl(&o.m, (o.e - e) as u64));
        if self.neg == o.neg { return Big { neg: self.neg, m: addm(&a, &b), e }; }
        match cmpm(&a, &b) {
            Ordering::Less => Big { neg: o.neg, m: subm(&b, &a), e },
            _ => Big { neg: self.neg, m: subm(&a, &b), e },
        }
    }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.clone().neg()) }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u32; self.m.len() + o.m.len() + 1];
        for (i, x) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, y) in o.m.iter().enumerate() {
                let s = v[i + j] as u64 + *x as u64 * *y as u64 + c;
                v[i + j] = s as u32;
                c = s >> 32;
            }
            let mut k = i + o.m.len();
            while c > 0 { let s = v[k] as u64 + c; v[k] = s as u32; c = s >> 32; k += 1; }
        }
        trim(&mut v);
        Big { neg: self.neg != o.neg, m: v, e: self.e + o.e }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        let d = self.sub(o);
        if d.zero() { Ordering::Equal } else if d.neg { Ordering::Less } else { Ordering::Greater }
    }
    pub fn le(&self, o: &Big) -> bool { self.cmp(o) != Ordering::Greater }
    /// exponents of the highest and the lowest set bit
    pub fn bits(&self) -> Option<(i64, i64)> {
        if self.zero() { return None; }
        let hi = self.m.len() as i64 * 32 - 1 - self.m[self.m.len() - 1].leading_zeros() as i64;
        let z = self.m.iter().position(|x| *x != 0).unwrap();
        let lo = z as i64 * 32 + self.m[z].trailing_zeros() as i64;
        Some((hi + self.e, lo + self.e))
    }
    /// nearest double (well inside the range of normal numbers), ties to even
    pub fn f64(&self) -> f64 {
        let (hi, _) = match self.bits() { None => return 0.0, Some(x) => x };
        let unit = hi - 52;
        // mantissa in units of 2^unit, with the remainder
        let mut q: u64 = 0;
        let bit = |p: i64| -> bool { let i = p - self.e; i >= 0 && (i / 32) < self.m.len() as i64 && (self.m[(i / 32) as usize] >> (i % 32)) & 1 == 1 };
        for p in (unit..=hi).rev() { q = q << 1 | bit(p) as u64; }
        let half = bit(unit - 1);
        let lo = self.bits().unwrap().1;
        let rest = lo < unit - 1;
        if half && (rest || q & 1 == 1) { q += 1; }
        let x = q as f64 * 2f64.powi((unit / 2) as i32) * 2f64.powi((unit - unit / 2) as i32);
        if self.neg { -x } else { x }
    }
    pub fn poly(c: &[i64], k: i64) -> Big {
        let mut r = Big::int(0);
        for (i, x) in c.iter().enumerate() { r = r.add(&Big::int(*x).scale(-k * i as i64)); }
        r
    }
}
