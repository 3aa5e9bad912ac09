//! C19: quadrants, positions, dimensions, locations.
use super::c12::Ords;
use super::util::*;
use crate::emb::p2;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C19 { ords: Vec<Ords>, o: Ords, r: Rng }
impl C19 {
    pub fn new(seed: u64, thorough: bool) -> C19 {
        let ords = Ords::sets(seed ^ 19, if thorough { 32 } else { 12 }, -60, 60);
        C19 { o: ords[0].clone(), ords, r: Rng::new(seed) }
    }
}
fn sym(c: Option<char>) -> J { match c { Some(c) => J::s(&c.to_string()), None => J::s("none") } }

impl Sut for C19 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.o = self.ords[v].clone(); }
    fn describe(&self, v: usize) -> String { format!("ordinate tables {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "of" => {
                let (p, q) = (a[0].ints(), a[1].ints());
                let c = |v: &Vec<i64>| Coordinate::new_xy(self.o.f(0, v[0]), self.o.f(1, v[1]));
                let x = Quadrant::quadrant_coordinates(&c(&p), &c(&q));
                // only the signs of the displacements matter; a zero may be negative
                let mut d = |k: usize| { let v = q[k] - p[k]; if v == 0 { if self.r.chance(1, 2) { 0.0 } else { -0.0 } } else { v.signum() as f64 * (1.0 + self.r.f01()) * p2(self.r.range(-300, 300) as i32) } };
                let y = Quadrant::quadrant_xy(d(0), d(1));
                if x == y { J::from(x) } else { J::A(vec![J::from(x), J::from(y)]) }
            }
            "pair" => {
                let (i, j) = (a[0].i() as i32, a[1].i() as i32);
                if Quadrant::is_opposite(i, j) != Quadrant::is_opposite(j, i) || Quadrant::common_half_plane(i, j) != Quadrant::common_half_plane(j, i) { return J::I(BAD); }
                J::A(vec![bit(Quadrant::is_opposite(i, j)), J::from(Quadrant::common_half_plane(i, j)), bit(Quadrant::is_in_half_plane(i, j)), bit(Quadrant::is_northern(i))])
            }
            "pos" => J::from(Position::opposite(a[0].i() as i32)),
            "dim" => sym(Dimension::to_dimension_symbol(a[0].i() as i32)),
            "sym" => match Dimension::to_dimension_value(a[0].str().chars().next().unwrap()) { Some(v) => J::from(v), None => J::s("none") },
            "loc" => sym(Location::to_location_symbol(a[0].i() as i32)),
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[1, 3, 60]);
        let q = |o: &str, a: Vec<J>| vec![(o.to_string(), J::A(a))];
        match r.below(12) {
            0 => q("dim", vec![J::I(*r.pick(&[-1000, i32::MIN as i64, i32::MAX as i64, 3, -4, 0, 1, 2]))]),
            1 => q("loc", vec![J::I(*r.pick(&[-1000, i32::MIN as i64, i32::MAX as i64, 3, -4, 0, 1, 2]))]),
            2 => q("sym", vec![J::s(&((r.range(33, 126) as u8 as char).to_string()))]),
            _ => q("of", vec![ja![r.range(-m, m), r.range(-m, m)], ja![r.range(-m, m), r.range(-m, m)]]),
        }
    }
}
