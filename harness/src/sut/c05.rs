//! C05: area and length.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C05 { embs: Vec<Emb>, cur: Emb }

impl C05 {
    pub fn new(seed: u64, thorough: bool) -> C05 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 12 * k);
        embs.extend(similar_big(seed, 12 * k));
        // squares leave the range of f64: only lengths are judged there
        let mut r = Rng::new(seed ^ 5);
        for k in [560, -560, 1000, -1000] {
            let m = DIHEDRAL[r.below(8)];
            embs.push(Emb { a: m.0, b: m.1, c: m.2, d: m.3, tx: 0, ty: 0, k, similar: true, exact: false });
        }
        C05 { embs, cur: Emb::id() }
    }
    fn wide(&self) -> bool { self.cur.k.abs() > 400 }
    fn area2(&self, a: f64) -> f64 { a / self.cur.s() / self.cur.s() * 2.0 }
    fn len(&self, a: f64) -> f64 { a / self.cur.s() }
}

pub fn cas3(ring: &Vec<Coordinate>) -> [CoordinateArraySequence; 3] {
    let h: Vec<Coordinate> = ring.iter().enumerate().map(|(i, c)| Coordinate::new_xyz(c.x, c.y, (i * 5) as f64)).collect();
    let m: Vec<Coordinate> = ring.iter().enumerate().map(|(i, c)| Coordinate::new_xym(c.x, c.y, (i * 3) as f64)).collect();
    [
        CoordinateArraySequence::new_with_coordinates_dimension_measures(ring.clone(), 2, 0),
        CoordinateArraySequence::new_with_coordinates_dimension_measures(h, 3, 0),
        CoordinateArraySequence::new_with_coordinates_dimension_measures(m, 3, 1),
    ]
}

/// all values are equal up to rounding: one of them, otherwise BAD
fn agree(v: &[f64]) -> J {
    if v.iter().all(|x| (x - v[0]).abs() <= 1e-12 * v[0].abs()) { J::F(v[0]) } else { J::I(BAD) }
}

impl Sut for C05 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.cur;
        match op {
            "ring" => {
                let ring = pts(&e, &a[0]);
                let mut sg = vec![Area::of_ring_signed_vec(&ring)];
                let mut ab = vec![Area::of_ring_vec(&ring)];
                let lr = LinearRing::new_with_coordinates(&ring);
                let mut len = vec![lr.get_length()];
                for s in cas3(&ring).iter() {
                    sg.push(Area::of_ring_signed_coordinate_sequence(s));
                    ab.push(Area::of_ring_coordinate_sequence(s));
                    len.push(Length::of_line(s));
                }
                if !self.wide() && ab.iter().any(|x| *x != sg[0].abs()) { return J::I(BAD); }
                let s = if self.wide() { J::s("skip") } else { match agree(&sg) { J::F(x) => J::F(self.area2(x) * e.det() as f64 + 0.0), x => x } };
                let l = match agree(&len) { J::F(x) => J::F(self.len(x)), x => x };
                ja![s, l]
            }
            "line" => {
                let p = pts(&e, &a[0]);
                let mut len = vec![LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&p)).get_length()];
                for s in cas3(&p).iter() { len.push(Length::of_line(s)); }
                match agree(&len) { J::F(x) => J::F(self.len(x)), x => x }
            }
            "geo" => {
                let polys: Vec<Polygon> = a[0].a().iter().map(|p| {
                    let r: Vec<LinearRing> = p.a().iter().map(|r| LinearRing::new_with_coordinates(&pts(&e, r))).collect();
                    Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec())
                }).collect();
                let m = MultiPolygon::new_with_polygons(&polys);
                let ar: Vec<J> = polys.iter().map(|p| J::F(self.area2(p.get_area()))).collect();
                let ln: Vec<J> = polys.iter().map(|p| J::F(self.len(p.get_length()))).collect();
                if self.wide() { return J::A(vec![J::s("skip"), J::s("skip"), J::A(ln)]); }
                J::A(vec![J::F(self.area2(m.get_area())), J::A(ar), J::A(ln)])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let one = |r: &mut Rng| jpts(&random_ring(r));
        vec![match r.below(4) {
            0 => ("ring".into(), J::A(vec![if r.chance(1, 50) { ja![] } else { one(r) }])),
            1 => {
                let n = size(r, 0, 9);
                let m = *r.pick(&[2, 9, 300]);
                ("line".into(), J::A(vec![jpts(&(0..n).map(|_| (r.range(-m, m), r.range(-m, m))).collect::<Vec<_>>())]))
            }
            _ => {
                let n = size(r, 0, 3);
                let g: Vec<J> = (0..n).map(|_| { let k = r.range(1, 4); J::A((0..k).map(|_| if r.chance(1, 12) { ja![] } else { one(r) }).collect()) }).collect();
                ("geo".into(), J::A(vec![J::A(g)]))
            }
        }]
    }
}
