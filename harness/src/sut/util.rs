use crate::emb::Emb;
use crate::json::J;
use crate::rng::Rng;
use geos_rs::verif::*;

/// a value no specification produces: an observation that has no counterpart on the lattice
pub const BAD: i64 = -987654321;

pub fn pt(e: &Emb, p: &J) -> Coordinate {
    let v = p.a();
    e.pt(v[0].i(), v[1].i())
}
pub fn pts(e: &Emb, p: &J) -> Vec<Coordinate> {
    p.a().iter().map(|q| pt(e, q)).collect()
}
/// the lattice point of an observed coordinate, or <<BAD, BAD>>
pub fn unpt(e: &Emb, c: &Coordinate) -> J {
    match e.inv(c.x, c.y) { Some((i, j)) => ja![i, j], None => ja![BAD, BAD] }
}
/// the lattice points fit the embedding, no three of them are on a line, and no two pairs are parallel
pub fn spread(e: &Emb, a: &[J]) -> bool {
    let l: Vec<(i64, i64)> = a.iter().take(4).map(|p| (p.a()[0].i(), p.a()[1].i())).collect();
    let turn = |i: usize, j: usize, k: usize| (l[j].0 - l[i].0) * (l[k].1 - l[i].1) != (l[j].1 - l[i].1) * (l[k].0 - l[i].0);
    l.iter().all(|p| e.holds(p.0, p.1))
        && (0..l.len()).all(|k| (0..k).all(|j| (0..j).all(|i| turn(i, j, k))))
        && (l.len() < 4 || (l[1].0 - l[0].0) * (l[3].1 - l[2].1) != (l[1].1 - l[0].1) * (l[3].0 - l[2].0))
}
pub fn bit(b: bool) -> J { J::I(b as i64) }
pub fn rpt(r: &mut Rng, m: i64) -> J { ja![r.range(-m, m), r.range(-m, m)] }
/// an observed number that is good to the tolerance `t`
pub fn tol(v: f64, t: f64) -> J { J::O(vec![("v".into(), J::F(v)), ("t".into(), J::F(t))]) }
/// an integer-valued float as an integer (BAD otherwise)
pub fn int(x: f64) -> J { if x.is_finite() && x.fract() == 0.0 && x.abs() < 2.0e9 { J::I(x as i64) } else { J::I(BAD) } }

/// a random closed ring: star-shaped, a histogram (many flat tops), or arbitrary; with repeated
/// points, a random start and a random direction
pub fn random_ring(r: &mut Rng) -> Vec<(i64, i64)> {
    let m = *r.pick(&[3, 6, 20, 200]);
    let mut v: Vec<(i64, i64)> = vec![];
    match r.below(4) {
        0 | 1 => {
            // sort random points by angle about one of them that is inside
            let n = size(r, 3, 9);
            for _ in 0..n { let p = (r.range(-m, m), r.range(-m, m)); if p != (0, 0) && !v.contains(&p) { v.push(p); } }
            v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap().then((a.0 * a.0 + a.1 * a.1).cmp(&(b.0 * b.0 + b.1 * b.1))));
        }
        2 => {
            let n = r.range(1, 4);
            let h: Vec<i64> = (0..n).map(|_| r.range(1, 3)).collect();
            v.push((0, 0));
            for (i, k) in h.iter().enumerate() {
                v.push((i as i64, *k));
                if r.chance(1, 3) { v.push((i as i64 + 1, *k)); v.push((i as i64, *k)); } // collapsed flat part
                v.push((i as i64 + 1, *k));
            }
            v.push((n, 0));
            v.dedup();
        }
        _ => { let n = r.range(0, 7); for _ in 0..n { v.push((r.range(-m, m), r.range(-m, m))); } }
    }
    if v.len() > 1 {
        let k = r.below(v.len());
        v.rotate_left(k);
        if r.chance(1, 2) { v.reverse(); }
        while r.chance(1, 3) { let i = r.below(v.len()); let p = v[i]; v.insert(i, p); }
    }
    if let Some(p) = v.first().copied() { v.push(p); }
    v
}
pub fn jpts(v: &[(i64, i64)]) -> J { J::A(v.iter().map(|p| ja![p.0, p.1]).collect()) }

fn orient(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i64 { ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum() }
fn onseg(p: (i64, i64), a: (i64, i64), b: (i64, i64)) -> bool {
    orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// is the closed ring a simple closed curve (repeated points allowed)
pub fn is_simple(r: &[(i64, i64)]) -> bool {
    let mut v = r.to_vec();
    v.dedup();
    if v.len() < 4 || v[0] != v[v.len() - 1] { return false; }
    v.pop();
    let n = v.len();
    for i in 0..n { for j in 0..i { if v[i] == v[j] { return false; } } }
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
        if j == i + 1 || (i == 0 && j == n - 1) {
            let (p, q, s) = if j == i + 1 { (a, b, d) } else { (c, a, b) };
            if onseg(p, q, s) || onseg(s, p, q) { return false; }
            continue;
        }
        if onseg(a, c, d) || onseg(b, c, d) || onseg(c, a, b) || onseg(d, a, b) { return false; }
        if orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0 { return false; }
    } }
    true
}
/// a random simple ring (sometimes empty, or collapsed to a line or a point)
pub fn simple_ring(r: &mut Rng) -> Vec<(i64, i64)> {
    if r.chance(1, 12) { return vec![]; }
    if r.chance(1, 12) {
        let (p, d) = ((r.range(-5, 5), r.range(-5, 5)), (r.range(-2, 2), r.range(-2, 2)));
        let mut v: Vec<(i64, i64)> = (0..r.range(2, 4)).map(|_| { let k = r.range(-3, 3); (p.0 + k * d.0, p.1 + k * d.1) }).collect();
        let f = v[0];
        v.push(f);
        return v;
    }
    loop { let v = random_ring(r); if is_simple(&v) { return v; } }
}
/// how many: mostly few, now and then many
pub fn size(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    if !r.chance(1, 30) { r.range(lo, hi) } else if r.chance(1, 60) { r.range(256, 1100) } else if r.chance(1, 6) { r.range(hi + 1, 200) } else { r.range(hi + 1, 20 + 5 * hi) }
}
/// now and then one value far from the others, so that no place can be passed over
pub fn spike(r: &mut Rng, v: &mut Vec<J>) {
    if v.is_empty() || !r.chance(1, 6) { return; }
    let i = r.below(v.len());
    let mut c = v[i].a().to_vec();
    if c.len() < 2 { return; }
    let k = r.below(2);
    c[k] = J::I(if r.chance(1, 2) { 55 } else { -55 });
    v[i] = J::A(c);
}
