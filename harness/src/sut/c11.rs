//! C11: coordinate lists.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C11 { axes: Vec<(OrdEmb, OrdEmb)>, x: OrdEmb, y: OrdEmb, l: CoordinateList, r: Rng, n: usize }

impl C11 {
    pub fn new(seed: u64, thorough: bool) -> C11 {
        let k = if thorough { 20 } else { 5 };
        let o = orders(seed, 2 * k, -10, 10);
        let axes: Vec<_> = (0..k).map(|i| (o[2 * i].clone(), o[2 * i + 1].clone())).collect();
        C11 { x: axes[0].0.clone(), y: axes[0].1.clone(), axes, l: CoordinateList::default(), r: Rng::new(seed), n: 0 }
    }
    fn c(&self, p: &J) -> Coordinate {
        let v = p.ints();
        Coordinate::new_xyz(self.x.f(v[0]), self.y.f(v[1]), v[2] as f64)
    }
    fn cs(&self, p: &J) -> Vec<Coordinate> { p.a().iter().map(|q| self.c(q)).collect() }
    fn un(&self, c: &Coordinate) -> J { ja![self.x.inv(c.x).unwrap_or(BAD), self.y.inv(c.y).unwrap_or(BAD), int(c.z)] }
    fn uns(&self, v: &[Coordinate]) -> J { J::A(v.iter().map(|c| self.un(c)).collect()) }
}

impl Sut for C11 {
    fn variants(&self) -> usize { self.axes.len() }
    fn begin(&mut self, v: usize) { let a = self.axes[v].clone(); self.x = a.0; self.y = a.1; self.l = CoordinateList::default(); self.n = 0; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.axes[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        if op != "up" { panic!("harness: op {}", op); }
        let rep = a.len() > 1 && a.last().unwrap() == &J::I(1);
        match a[0].str() {
            "new" => {
                let v = self.cs(&a[1]);
                self.l = if rep && self.r.chance(1, 2) { CoordinateList::new(v) } else { CoordinateList::new_with_repeated(v, rep) };
            }
            "add" => { let c = self.c(&a[1]); self.l.add_coordinate_repeated(c, rep) }
            "ins" => { let c = self.c(&a[2]); self.l.add_index_coordinate_repeated(a[1].u(), c, rep) }
            "list" => {
                let v = self.cs(&a[1]);
                match self.r.below(4) {
                    0 => { self.l.add_coordinate_list_repeated(&v, rep); }
                    1 => { self.l.add_coordinate_list_repeated_direction(&v, rep, true); }
                    2 => { let n = v.len(); self.l.add_coordinate_list_repeated_start_end(&v, rep, 0, n); }
                    _ => { self.l.add_all(v, rep); }
                }
            }
            "rev" => { let v = self.cs(&a[1]); self.l.add_coordinate_list_repeated_direction(&v, rep, false); }
            "sect" => { let v = self.cs(&a[1]); self.l.add_coordinate_list_repeated_start_end(&v, a[2].b(), a[3].u(), a[4].u()); }
            "close" => self.l.close_ring(),
            x => panic!("harness: up {}", x),
        }
        // every view of the list is the same sequence
        let v = self.l.to_coordinate_array();
        let f = self.uns(&v);
        let mut r = self.l.to_coordinate_array_forward(false);
        r.reverse();
        let idx: Vec<Coordinate> = (0..v.len() + 2).map_while(|i| self.l.get_coordinate(i)).collect();
        if self.uns(&self.l.to_coordinate_array_forward(true)) != f || self.uns(&r) != f || self.uns(&idx) != f { return J::I(BAD); }
        f
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 2, 4]);
        let c = |r: &mut Rng| ja![r.range(-m, m), r.range(0, 1), if r.chance(1, 8) { 0 } else { r.range(1, 99) }];
        let cs = |r: &mut Rng, n: i64| -> J { J::A((0..n).map(|_| ja![r.range(-m, m), r.range(0, 1), if r.chance(1, 8) { 0 } else { r.range(1, 99) }]).collect()) };
        // the length of the list is tracked with the same rules so that insertion points are in range
        let mut w: Vec<(i64, i64)> = vec![];
        let mut out = vec![];
        let same = |c: &J| (c.a()[0].i(), c.a()[1].i());
        for _ in 0..size(r, 3, 12) {
            let rep = r.range(0, 1);
            let op = match r.below(9) {
                0 | 1 | 2 => { let k = c(r); let p = same(&k); if rep == 1 || w.last() != Some(&p) { w.push(p) } J::A(vec![J::s("add"), k, J::I(rep)]) }
                3 | 4 => {
                    let k = c(r); let p = same(&k); let i = r.below(w.len() + 1);
                    if rep == 1 || !((i > 0 && w[i - 1] == p) || (i < w.len() && w[i] == p)) { w.insert(i, p) }
                    J::A(vec![J::s("ins"), J::from(i), k, J::I(rep)])
                }
                5 | 6 => {
                    let n = size(r, 0, 5); let v = cs(r, n); let rev = r.chance(1, 2);
                    let mut ps: Vec<_> = v.a().iter().map(same).collect();
                    if rev { ps.reverse(); }
                    for p in ps { if rep == 1 || w.last() != Some(&p) { w.push(p) } }
                    J::A(vec![J::s(if rev { "rev" } else { "list" }), v, J::I(rep)])
                }
                7 => {
                    let n = size(r, 1, 6); let v = cs(r, n);
                    let (a, b) = (r.range(0, n - 1), r.range(0, n));
                    let ps: Vec<_> = v.a().iter().map(same).collect();
                    let mut i = a;
                    while i != b { let p = ps[i as usize]; if rep == 1 || w.last() != Some(&p) { w.push(p) } if a < b { i += 1 } else { i -= 1 } }
                    J::A(vec![J::s("sect"), v, J::I(rep), J::I(a), J::I(b)])
                }
                _ => { if let Some(p) = w.first().copied() { if w.last() != Some(&p) { w.push(p) } } ja!["close"] }
            };
            out.push(("up".to_string(), op));
        }
        out
    }
}
