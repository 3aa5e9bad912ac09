//! C21: triangles.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C21 { embs: Vec<Emb>, e: Emb, r: Rng, nt: usize, na: usize, turned: bool, flat: bool }
impl C21 {
    pub fn new(seed: u64, thorough: bool) -> C21 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed ^ 21, 10 * k);
        embs.extend(similar_big(seed ^ 21, 6 * k));
        let nt = embs.len();
        embs.extend(turned(seed ^ 21, 6 * k, 30));
        let na = embs.len();
        // nearly flat images: only sides and turns are known
        embs.extend(affine(seed ^ 21, 10 * k, 512));
        C21 { e: Emb::id(), embs, r: Rng::new(seed), nt, na, turned: false, flat: false }
    }
    /// the lattice point of an observed one, good to `rel` of its size and some ulps of the input
    fn un(&self, c: &Coordinate, big: f64, rel: f64) -> J {
        let (x, y) = self.e.unf(c.x, c.y);
        let m = x.abs().max(y.abs());
        let t = rel * (1.0 + m) + 32.0 * f64::EPSILON * (big + c.x.abs().max(c.y.abs())) / self.e.unit();
        ja![tol(x, t), tol(y, t)]
    }
    fn num(&self, v: f64, rel: f64) -> J { tol(v, rel * (1.0 + v.abs())) }
}
fn zpt(e: &Emb, p: &J) -> Coordinate {
    let mut c = pt(e, p);
    c.set_z(p.a()[2].f() * e.s());
    c
}

impl Sut for C21 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.e = self.embs[v]; self.turned = v >= self.nt; self.flat = v >= self.na; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, x: &[J]) -> J {
        let e = self.e;
        let obj = self.r.chance(1, 2);
        if self.flat && !matches!(op, "size" | "holds") { return J::s("skip"); }
        let u = e.unit();
        let hand = e.hand() as f64;
        let three: Vec<Coordinate> = x[..3].iter().map(|p| if p.a().len() == 3 { zpt(&e, p) } else { pt(&e, p) }).collect();
        let (a, b, c) = (&three[0], &three[1], &three[2]);
        let big = three.iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
        let t = Triangle::new(a, b, c);
        match op {
            "size" => {
                let (s, z, l, m, q, w) = if obj { (t.signed_area(), t.area(), t.length(), t.longest_side_length(), t.is_acute(), t.is_ccw()) }
                    else { (Triangle::signed_area_coordinates(a, b, c), Triangle::area_coordinates(a, b, c), Triangle::length_coordinates(a, b, c), Triangle::longest_side_length_coordinates(a, b, c), Triangle::is_acute_coordinates(a, b, c), Triangle::is_ccw_coordinates(a, b, c)) };
                let turn = if Orientation::index(a, b, c) == 0 || hand > 0.0 { bit(w) } else { bit(!w) };
                if self.flat { let k = J::s("skip"); return ja![k.clone(), k.clone(), k.clone(), k.clone(), k, turn]; }
                let thin = 1e-14 * (big / u) * (big / u);
                let area = |v: f64| if self.turned { let v = v / u / u; tol(v, 1e-9 * (1.0 + v.abs()) + thin) } else { J::F(v / u / u) };
                ja![area(s * hand), area(z), J::F(l / u), J::F(m / u), if self.turned { J::s("skip") } else { bit(q) }, turn]
            }
            "centre" => {
                let (g, cc, i) = if obj { (t.centroid(), t.circumcentre(), t.in_centre()) }
                    else { (Triangle::centroid_coordinates(a, b, c), Triangle::circumcentre_coordinates(a, b, c), Triangle::in_centre_coordinates(a, b, c)) };
                let dd = Triangle::circumcentre_dd_coordinates(a, b, c);
                // intersecting two perpendicular bisectors
                let h = if e.exact {
                    let p = Triangle::perpendicular_bisector_coordinates(a, b);
                    let q = Triangle::perpendicular_bisector_coordinates(b, c);
                    self.un(&HCoordinate::new_with_hcoordinates(&p, &q).get_coordinate(), big, 1e-9)
                } else { J::s("skip") };
                ja![self.un(&g, big, 1e-13), self.un(&cc, big, 1e-9), self.un(&dd, big, 2e-14), h, self.un(&i, big, 1e-9), self.un(&Triangle::angle_bisector_coordinates(a, b, c), big, 1e-9)]
            }
            "radius" => {
                let r = if obj { t.circumradius() } else { Triangle::circumradius_coordinates(a, b, c) };
                if self.turned && Orientation::index(a, b, c) == 0 { return J::s("skip"); }
                J::F(r / u)
            }
            "holds" => bit(Triangle::intersects_coordinates(a, b, c, &pt(&e, &x[3]))),
            "height" => {
                let p = pt(&e, &x[3]);
                let z = if obj { t.interpolate_z(&p) } else { Triangle::interpolate_z_coordinates(&p, a, b, c) } / e.s();
                self.num(z, 1e-9)
            }
            "space" => if self.turned { J::s("skip") } else { J::F(if obj { t.area_3d() } else { Triangle::area_3d_coordinates(a, b, c) } / u / u) },
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 4, 10]);
        let mut big = |r: &mut Rng| -> Vec<J> {
            let m = *r.pick(&[3, 10, 100]);
            let p = (r.range(-m, m), r.range(-m, m));
            let d = (r.range(-m, m), r.range(-m, m));
            let k = r.range(-2, 3);
            // sometimes thin
            let s = if r.chance(1, 2) { (p.0 + d.0 * k / 2 + r.range(-1, 1), p.1 + d.1 * k / 2 + r.range(-1, 1)) } else { (r.range(-m, m), r.range(-m, m)) };
            let mut v = vec![ja![p.0, p.1], ja![p.0 + d.0, p.1 + d.1], ja![s.0, s.1]];
            let k = r.below(3); v.rotate_left(k);
            if r.chance(1, 2) { v.swap(0, 1); }
            v
        };
        let lift = |r: &mut Rng, p: J| { let z = r.range(-9, 9); ja![p.a()[0].clone(), p.a()[1].clone(), z] };
        vec![match r.below(7) {
            0 => ("size".into(), J::A(big(r))),
            1 | 2 => ("centre".into(), J::A(big(r))),
            3 if r.chance(1, 2) => {
                // one side next to nothing beside the others
                let (p, q) = ((r.range(-59, 59), r.range(-59, 59)), rpt(r, 60));
                let mut v = vec![ja![p.0, p.1], ja![p.0 + r.range(-1, 1), p.1 + r.range(-1, 1)], q];
                let k = r.below(3); v.rotate_left(k);
                if r.chance(1, 2) { v.swap(0, 1); }
                (["radius", "size"][r.below(2)].into(), J::A(v))
            }
            3 => ("radius".into(), ja![rpt(r, m), rpt(r, m), rpt(r, m)]),
            4 => { let v = big(r); let k = r.range(-1, 2); let w = if r.chance(1, 2) { rpt(r, 60) } else { let q = |i: usize| (v[0].a()[i].i() * (2 - k) + v[1].a()[i].i() * k) / 2; ja![q(0), q(1)] };
                   ("holds".into(), ja![v[0].clone(), v[1].clone(), v[2].clone(), w]) }
            5 => { let v = big(r); let w = rpt(r, 60); let l: Vec<J> = v.into_iter().map(|p| lift(r, p)).collect(); ("height".into(), ja![l[0].clone(), l[1].clone(), l[2].clone(), w]) }
            _ => { let m = 4; let l: Vec<J> = (0..3).map(|_| { let p = rpt(r, m); lift(r, p) }).collect(); ("space".into(), J::A(l)) }
        }]
    }
}
