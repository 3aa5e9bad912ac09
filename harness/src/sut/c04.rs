//! C04: ring orientation.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C04 { embs: Vec<Emb>, cur: Emb }

impl C04 {
    pub fn new(seed: u64, thorough: bool) -> C04 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 12 * k);
        embs.extend(similar_big(seed, 12 * k));
        embs.extend(affine(seed, 24 * k, 512));
        C04 { embs, cur: Emb::id() }
    }
    fn cap(ring: &Vec<Coordinate>) -> J {
        let b = Orientation::is_ccw_vec(ring);
        let h: Vec<Coordinate> = ring.iter().enumerate().map(|(i, c)| Coordinate::new_xyz(c.x, c.y, (i * 5) as f64)).collect();
        let m: Vec<Coordinate> = ring.iter().enumerate().map(|(i, c)| Coordinate::new_xym(c.x, c.y, (i * 3) as f64)).collect();
        let s = [
            CoordinateArraySequence::new_with_coordinates_dimension_measures(ring.clone(), 2, 0),
            CoordinateArraySequence::new_with_coordinates_dimension_measures(h, 3, 0),
            CoordinateArraySequence::new_with_coordinates_dimension_measures(m, 3, 1),
        ];
        if s.iter().any(|s| Orientation::is_ccw_coordinate_array_sequence(s) != b) { return J::I(BAD); }
        bit(b)
    }
}

impl Sut for C04 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.cur;
        match op {
            "ccw" => {
                let ring = pts(&e, &a[0]);
                let kind = a[1].i();
                let upright = e.c == 0 && e.d > 0;
                let mut back = ring.clone();
                back.reverse();
                let skip = || J::s("skip");
                let (c1, c2) = if kind == 2 && !upright { (skip(), skip()) } else { (Self::cap(&ring), Self::cap(&back)) };
                let (a1, a2) = if !e.exact { (skip(), skip()) } else { (bit(Orientation::is_ccw_area_vec(&ring)), bit(Orientation::is_ccw_area_vec(&back))) };
                // an embedding that reflects the plane exchanges a ring and its reversal
                if e.det() > 0 { J::A(vec![c1, c2, a1, a2]) } else { J::A(vec![c2, c1, a2, a1]) }
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        vec![("ccw".into(), ja![J::A(random_ring(r).iter().map(|p| ja![p.0, p.1]).collect())])]
    }
}
