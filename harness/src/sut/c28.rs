//! C28: building geometries along many routes.
use super::c12::{axis, layout, Ords};
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateArraySequence as Arr, CoordinateArraySequenceFactory as AF, CoordinateArraySequences as AU, GeometryFactory as GF,
    PackedCoordinateSequenceDouble as Pack, PackedCoordinateSequenceFactory as PF, PackedCoordinateSequences as PU, *};

enum X { V(Vec<Coordinate>), S(Arr), K(Pack), P(Point), L(LineString), R(LinearRing), A(Polygon), MP(MultiPoint), ML(MultiLineString), MA(MultiPolygon) }
use X::*;

pub struct C28 { ords: Vec<Ords>, o: Ords, mem: Vec<X>, ly: String }
impl C28 {
    pub fn new(seed: u64, thorough: bool) -> C28 {
        let ords = Ords::sets(seed ^ 28, if thorough { 16 } else { 5 }, -2, 60);
        C28 { o: ords[0].clone(), ords, mem: vec![], ly: String::new() }
    }
    fn un(&self, v: &[Coordinate]) -> J { self.o.uns("XYZM", v) }
    fn seq(&self, s: &Arr) -> (J, J) {
        let (d, m) = (s.get_dimension(), s.get_measures());
        let each: Vec<Coordinate> = (0..s.size()).map(|i| s.get_coordinate_index(i)).collect();
        let b = self.un(&s.to_coordinate_array());
        (ja![d, m], if self.un(&each) == b { b } else { J::I(BAD) })
    }
    fn kseq(&self, s: &Pack) -> (J, J) { (ja![s.get_dimension(), s.get_measures()], self.un(&s.to_coordinate_array())) }
    fn part(&self, p: (J, J)) -> (J, J) { p }
    fn rings(&self, a: &Polygon) -> Vec<(J, J)> {
        let mut v = vec![self.seq(&a.get_exterior_ring().get_coordinate_array_sequence())];
        for i in 0..a.get_num_interior_ring() { v.push(self.seq(&a.get_interior_ring_n(i).get_coordinate_array_sequence())); }
        v
    }
    fn show(&self, x: &X) -> J {
        let s = J::s("*");
        let split = |v: Vec<(J, J)>| { let (a, b): (Vec<J>, Vec<J>) = v.into_iter().unzip(); (J::A(a), J::A(b)) };
        let (t, c, b, e, m) = match x {
            V(v) => ("V", s.clone(), self.un(v), s.clone(), s),
            S(q) => { let (c, b) = self.seq(q); ("S", ja![c], b, s.clone(), s) }
            K(q) => { let (c, b) = self.kseq(q); ("K", ja![c], b, s.clone(), s) }
            P(p) => { let (c, b) = self.seq(&p.get_coordinate_sequence()); let b = if self.un(&p.get_coordinates()) == b { b } else { J::I(BAD) }; ("P", ja![c], b, bit(p.is_empty()), s) }
            L(l) => { let (c, b) = self.seq(&l.get_coordinate_sequence()); let b = if self.un(&l.get_coordinates()) == b { b } else { J::I(BAD) }; ("L", ja![c], b, bit(l.is_empty()), s) }
            R(r) => { let (c, b) = self.part(self.seq(&r.get_coordinate_array_sequence())); let b = if self.un(&r.get_coordinates()) == b { b } else { J::I(BAD) }; ("R", ja![c], b, bit(r.is_empty()), s) }
            A(a) => { let (c, b) = split(self.rings(a)); ("A", c, b, bit(a.is_empty()), s) }
            MP(p) => {
                let (c, b) = split((0..p.get_num_points()).map(|i| self.seq(&p.get_point_at_index(i).unwrap().get_coordinate_sequence())).collect());
                let m = match p.get_precision_model() { None => J::I(0), Some(m) => if m.equals(PrecisionModel::new_with_scale(4.0)) { J::I(1) } else { J::I(BAD) } };
                ("MP", c, b, bit(p.is_empty()), m)
            }
            ML(l) => ("ML", s.clone(), s.clone(), bit(l.is_empty()), s),
            MA(p) => {
                let polys: Vec<Vec<(J, J)>> = (0..p.get_num_polygons()).map(|i| self.rings(&p.get_polygon_at_index(i))).collect();
                let c = J::A(polys.iter().flatten().map(|x| x.0.clone()).collect());
                let b = J::A(polys.iter().map(|v| J::A(v.iter().map(|x| x.1.clone()).collect())).collect());
                ("MA", c, b, bit(p.is_empty()), s)
            }
        };
        // what the geometry says it is
        let kind = |n: &str, k: i32| ["Point", "MultiPoint", "LineString", "LinearRing", "MultiLineString", "Polygon", "MultiPolygon"].iter().position(|x| *x == n)
            .map_or(J::I(BAD), |i| if i as i32 == k { J::s(["P", "MP", "L", "R", "ML", "A", "MA"][i]) } else { J::I(BAD) });
        let t = match x {
            P(p) => kind(&p.get_geometry_type(), Point::get_type_code()),
            L(p) => kind(&p.get_geometry_type(), LineString::get_type_code()),
            R(p) => kind(&p.get_geometry_type(), p.get_type_code()),
            A(p) => kind(&p.get_geometry_type(), Polygon::get_type_code()),
            MP(p) => kind(&p.get_geometry_type(), MultiPoint::get_type_code()),
            ML(p) => kind(&p.get_geometry_type(), MultiLineString::get_type_code()),
            MA(p) => kind(&p.get_geometry_type(), p.get_type_code()),
            _ => J::s(t),
        };
        J::A(vec![t, c, b, e, m])
    }
    fn eq(x: &X, y: &X) -> J {
        // both ways round
        let two = |a: bool, b: bool| if a == b { bit(a) } else { J::I(BAD) };
        match (x, y) {
            (P(a), P(b)) => two(a.equals_exact(b, 0.0), b.equals_exact(a, 0.0)),
            (L(a), L(b)) => two(a.equals_exact(b, 0.0), b.equals_exact(a, 0.0)),
            (R(a), R(b)) => two(a.equals_exact(b, 0.0), b.equals_exact(a, 0.0)),
            (A(a), A(b)) => two(a.equals_exact(b, 0.0), b.equals_exact(a, 0.0)),
            (MP(a), MP(b)) => two(a.equals_exact(b.copy(), 0.0), b.equals_exact(a.copy(), 0.0)),
            (ML(a), ML(b)) => two(a.equals_exact(b, 0.0), b.equals_exact(a, 0.0)),
            (MA(a), MA(b)) => two(a.equals_exact(b.copy(), 0.0), b.equals_exact(a.copy(), 0.0)),
            _ => J::s("*"),
        }
    }
    fn obs(&self) -> J {
        let last = self.mem.last().unwrap();
        J::A(vec![J::A(self.mem.iter().map(|x| self.show(x)).collect()), J::A(self.mem.iter().map(|x| Self::eq(x, last)).collect())])
    }
    fn make(&self, route: &str, src: &[usize]) -> X {
        let (d, m) = layout(&self.ly);
        let pm = PrecisionModel::new_with_scale(4.0);
        let x = |i: usize| &self.mem[src[i] - 1];
        match (route, src.len()) {
            ("p0", 0) => return P(GF::create_point()),
            ("p00", 0) => return P(Point::default()),
            ("l0", 0) => return L(GF::create_line_string()),
            ("r0", 0) => return R(GF::create_linear_ring()),
            _ => {}
        }
        if src.len() == 2 {
            return match (route, x(0), x(1)) {
                ("ah", R(s), R(h)) => A(GF::create_polygon_with_linear_ring_vec(s, &vec![h.copy()])),
                ("ahn", R(s), R(h)) => A(Polygon::new_with_linear_ring_vec(s, &vec![h.clone()])),
                ("ahm", R(s), R(h)) => A(Polygon::new_with_linear_ring_vec_precision_model(s, &vec![h.copy()], pm)),
                ("mpp", P(a), P(b)) => MP(GF::create_multi_point_from_points(&vec![a.copy(), b.clone()])),
                ("mpn", P(a), P(b)) => MP(MultiPoint::new_with_points(&vec![a.clone(), b.copy()])),
                ("mpm", P(a), P(b)) => MP(MultiPoint::new_with_points_precision_model(&vec![a.copy(), b.copy()], pm)),
                ("mln", L(a), L(b)) => ML(MultiLineString::new_with_line_strings(&vec![a.copy(), b.clone()])),
                ("mlm", L(a), L(b)) => ML(MultiLineString::new_with_line_strings_precision_model(&vec![a.clone(), b.copy()], pm)),
                ("man", A(a), A(b)) => MA(MultiPolygon::new_with_polygons(&vec![a.copy(), b.clone()])),
                ("mag", A(a), A(b)) => MA(GF::create_multi_polygon(&vec![a.clone(), b.copy()])),
                ("mam", A(a), A(b)) => MA(MultiPolygon::new_with_polygons_precision_model(&vec![a.copy(), b.copy()], pm)),
                _ => panic!("harness: route {}", route),
            };
        }
        match (route, x(0)) {
            ("af", V(v)) => S(AF::create_from_coordinates(v)),
            ("arr", V(v)) => S(Arr::new_with_coordinates(v)),
            ("dm", V(v)) => S(Arr::new_with_coordinates_dimension_measures(v.clone(), d, m)),
            ("dim", V(v)) => S(Arr::new_with_coordinates_dimension(v.clone(), d)),
            ("pf", V(v)) => K(PF::create_double_from_coordinates(v)),
            ("pd", V(v)) => {
                let flat: Vec<f64> = v.iter().flat_map(|c| { let a = [c.x, c.y, c.z, c.m]; (0..d as usize).map(|k| a[axis(&self.ly, k)]).collect::<Vec<_>>() }).collect();
                K(if m == 0 && v.len() % 2 == 1 { PF::create_double_coordinates_dimension(&flat, d) } else { PF::create_double_coordinate_dimension_measures(&flat, d, m) })
            }
            ("copy", S(s)) => S(s.copy()),
            ("from", S(s)) => S(Arr::new_from_coordinate_array_sequence(s)),
            ("aff", S(s)) => S(AF::create_from_coordinate_array_sequence(s)),
            ("size", S(s)) => {
                let mut n = if s.get_measures() == 0 && s.size() % 2 == 0 { AF::create_with_size_dimension(s.size(), s.get_dimension()) } else { AF::create_with_size_dimension_measures(s.size(), s.get_dimension(), s.get_measures()) };
                AU::copy(s, 0, &mut n, 0, s.size());
                S(n)
            }
            ("kcopy", K(k)) => K(k.copy()),
            ("ksize", K(k)) => {
                let mut n = PF::create_with_size_dimension_measures(k.size(), k.get_dimension(), k.get_measures());
                PU::copy(k, 0, &mut n, 0, k.size());
                K(n)
            }
            ("sv", S(s)) => V(s.to_coordinate_array()),
            ("kv", K(k)) => V(k.to_coordinate_array()),
            ("pv", V(v)) => P(GF::create_point_from_coordinate(&v[0])),
            ("pn", V(v)) => P(Point::new_with_coordinate(&v[0], if v[0].x > 0.0 { Some(pm) } else { None })),
            ("ps", S(s)) => P(GF::create_point_from_coordinate_array_sequence(s)),
            ("pss", S(s)) => P(Point::new_with_coordinate_seq(s)),
            ("lv", V(v)) => L(GF::create_line_string_coordinates(v)),
            ("ls", S(s)) => L(GF::create_line_string_coordinate_array_sequence(s)),
            ("lss", S(s)) => if s.size() % 2 == 0 { L(LineString::new_from_coordinate_sequence(s.clone())) } else { let mut l = GF::create_line_string(); l.init(s.clone()); L(l) },
            ("rv", V(v)) => R(GF::create_linear_ring_with_coordinates(v)),
            ("rn", V(v)) => R(LinearRing::new_with_coordinates(v)),
            ("rs", S(s)) => R(GF::create_linear_ring_with_coordinate_array_sequence(s)),
            ("rss", S(s)) => R(LinearRing::new_with_coordinate_array_sequence(s)),
            ("lq", L(l)) => S(l.get_coordinate_sequence()),
            ("rq", R(r)) => S(r.get_coordinate_array_sequence()),
            ("pq", P(p)) => S(p.get_coordinate_sequence()),
            ("pc", P(p)) => P(p.copy()),
            ("lc", L(l)) => L(l.copy()),
            ("rc", R(r)) => R(r.copy()),
            ("av", V(v)) => A(GF::create_polygon_with_coordinates(v)),
            ("as", S(s)) => A(GF::create_polygon_with_coordinate_array_sequence(s)),
            ("mv", V(v)) => MP(GF::create_multi_point_with_coordinates(v)),
            ("ms", S(s)) => MP(GF::create_multi_point_from_coordinate_array_sequence(s)),
            ("ar", R(r)) => A(GF::create_polygon_with_linear_ring(r)),
            ("arn", R(r)) => A(Polygon::new_with_linear_ring(r)),
            ("arm", R(r)) => A(Polygon::new_with_linear_ring_precision_model(r, pm)),
            ("gv", P(g)) => V(g.get_coordinates()),
            ("gv", L(g)) => V(g.get_coordinates()),
            ("gv", R(g)) => V(g.get_coordinates()),
            ("gv", A(g)) => V(g.get_coordinates()),
            ("gv", MP(g)) => V(g.get_coordinates()),
            ("gc", A(g)) => A(g.copy()),
            ("gc", MP(g)) => MP(g.copy()),
            ("gc", MA(g)) => MA(g.copy()),
            ("end", L(l)) => P(l.get_end_point().unwrap()),
            ("shell", A(a)) => R(a.get_exterior_ring()),
            ("hole", A(a)) => R(a.get_interior_ring_n(0)),
            ("at", MP(p)) => P(p.get_point_at_index(p.get_num_points() - 1).unwrap()),
            ("aat", MA(p)) => A(p.get_polygon_at_index(p.get_num_polygons() - 1)),
            _ => panic!("harness: route {}", route),
        }
    }
}
impl Sut for C28 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.o = self.ords[v].clone(); self.mem.clear(); }
    fn describe(&self, v: usize) -> String { format!("table {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        match op {
            "start" => {
                self.ly = a[0].str().to_string();
                let v = a[1].a().iter().map(|c| { let v = c.ints(); Coordinate { x: self.o.f(0, v[0]), y: self.o.f(1, v[1]), z: self.o.f(2, v[2]), m: self.o.f(3, v[3]) } }).collect();
                self.mem = vec![V(v)];
            }
            "spoil" => {
                let (d, _) = layout(&self.ly);
                let val: Vec<f64> = (0..4).map(|k| self.o.f(k, 50 + k as i64)).collect();
                let ly = self.ly.clone();
                let i = a[0].u() - 1;
                match &mut self.mem[i] {
                    V(v) => for c in v.iter_mut() { for k in 0..d as usize { let x = axis(&ly, k); c.set_ordinate(x as i32, val[x]); } },
                    S(q) => for i in 0..q.size() { for k in 0..d { q.set_ordinate(i, k, val[axis(&ly, k as usize)]); } },
                    K(q) => for i in 0..q.size() { for k in 0..d { q.set_ordinate(i, k, val[axis(&ly, k as usize)]); } },
                    _ => panic!("harness: spoil"),
                }
            }
            _ => { let x = self.make(op, &a.iter().map(|i| i.u()).collect::<Vec<_>>()); self.mem.push(x); }
        }
        self.obs()
    }
    fn gen(&mut self, _r: &mut Rng) -> Vec<(String, J)> { vec![] }
}
