//! C15 and C16: geometries under copying, reversing, forking and requests of their envelopes.
use super::c12::{Ords, NAN};
use super::util::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::{CoordinateArraySequence as Arr, CoordinateArraySequenceFactory as AF, GeometryFactory as GF, *};

pub enum G { P(Point), L(LineString), R(LinearRing), A(Polygon), MP(MultiPoint), ML(MultiLineString), MA(MultiPolygon) }
use G::*;

pub struct C15 { ords: Vec<Ords>, pub o: Ords, pub r: Rng, g: Option<G>, model: bool, boxes: bool, ly: String }

const HUGE: f64 = 1.0e200;

impl C15 {
    pub fn new(seed: u64, thorough: bool, boxes: bool) -> C15 {
        let ords = Ords::sets(seed ^ 15, if thorough { 16 } else { 4 }, -60, 60);
        C15 { o: ords[0].clone(), ords, r: Rng::new(seed), g: None, model: false, boxes, ly: "XY".into() }
    }
    fn cs(&self, t: &J) -> Vec<Coordinate> {
        t.a().iter().map(|c| { let v = c.ints(); Coordinate::new_xyzm(self.o.f(0, v[0]), self.o.f(1, v[1]), self.o.f(2, v[2]), self.o.f(3, v[3])) }).collect()
    }
    fn plain(&self, ly: &str, t: &J) -> bool { ly == "XY" || (!t.a().is_empty() && t.a().iter().all(|c| c.ints()[2] != NAN && c.ints()[3] != NAN)) }
    fn seq(&mut self, ly: &str, t: &J) -> Arr {
        let v = self.cs(t);
        if self.plain(ly, t) && self.r.chance(1, 2) { return if self.r.chance(1, 2) { Arr::new_with_coordinates(&v) } else { AF::create_from_coordinates(&v) }; }
        if ly == "XY" { Arr::new_with_coordinates_dimension_measures(v, 2, 0) } else { Arr::new_with_coordinates_dimension_measures(v, 4, 1) }
    }
    fn point(&mut self, ly: &str, t: &J) -> Point {
        if t.a().is_empty() && self.r.chance(2, 3) { return if self.r.chance(1, 2) { Point::default() } else { GF::create_point() }; }
        if self.plain(ly, t) && !t.a().is_empty() && self.r.chance(1, 2) { let c = self.cs(t)[0]; return if self.r.chance(1, 2) { Point::new_with_coordinate(&c, None) } else { GF::create_point_from_coordinate(&c) }; }
        let s = self.seq(ly, t);
        if self.r.chance(1, 2) { Point::new_with_coordinate_seq(&s) } else { GF::create_point_from_coordinate_array_sequence(&s) }
    }
    fn line(&mut self, ly: &str, t: &J) -> LineString {
        if t.a().is_empty() && self.r.chance(1, 2) { return GF::create_line_string(); }
        if self.plain(ly, t) && self.r.chance(1, 3) { return GF::create_line_string_coordinates(&self.cs(t)); }
        let s = self.seq(ly, t);
        if self.r.chance(1, 2) { LineString::new_from_coordinate_sequence(s) } else { GF::create_line_string_coordinate_array_sequence(&s) }
    }
    pub fn ring(&mut self, ly: &str, t: &J) -> LinearRing {
        if t.a().is_empty() && self.r.chance(1, 2) { return GF::create_linear_ring(); }
        if self.plain(ly, t) && self.r.chance(1, 2) { return if self.r.chance(1, 2) { LinearRing::new_with_coordinates(&self.cs(t)) } else { GF::create_linear_ring_with_coordinates(&self.cs(t)) }; }
        let s = self.seq(ly, t);
        if self.r.chance(1, 2) { LinearRing::new_with_coordinate_array_sequence(&s) } else { GF::create_linear_ring_with_coordinate_array_sequence(&s) }
    }
    pub fn poly(&mut self, ly: &str, t: &J, m: bool) -> Polygon {
        let shell = self.ring(ly, &t.a()[0]);
        let holes: Vec<LinearRing> = t.a()[1..].iter().map(|h| self.ring(ly, h)).collect();
        let pm = PrecisionModel::new_with_scale(-HUGE);
        if m { return if holes.is_empty() && self.r.chance(1, 2) { Polygon::new_with_linear_ring_precision_model(&shell, pm) } else { Polygon::new_with_linear_ring_vec_precision_model(&shell, &holes, pm) }; }
        if holes.is_empty() {
            return match self.r.below(5) {
                0 => Polygon::new_with_linear_ring(&shell),
                1 => GF::create_polygon_with_linear_ring(&shell),
                2 => { let s = self.seq(ly, &t.a()[0]); GF::create_polygon_with_coordinate_array_sequence(&s) }
                3 if self.plain(ly, &t.a()[0]) => GF::create_polygon_with_coordinates(&self.cs(&t.a()[0])),
                _ => GF::create_polygon_with_linear_ring_vec(&shell, &holes),
            };
        }
        if self.r.chance(1, 2) { Polygon::new_with_linear_ring_vec(&shell, &holes) } else { GF::create_polygon_with_linear_ring_vec(&shell, &holes) }
    }
    pub fn build(&mut self, x: &J) -> G {
        let v = x.a();
        let (k, ly, m, b) = (v[0].str().to_string(), v[1].str().to_string(), v[2].b(), &v[3]);
        let pm = PrecisionModel::new_with_scale(-HUGE);
        match k.as_str() {
            "P" => P(self.point(&ly, b)),
            "L" => L(self.line(&ly, b)),
            "R" => R(self.ring(&ly, b)),
            "A" => A(self.poly(&ly, b, m)),
            "MP" => {
                let p: Vec<Point> = b.a().iter().map(|t| self.point(&ly, t)).collect();
                if m { return MP(MultiPoint::new_with_points_precision_model(&p, pm)); }
                if b.a().iter().all(|t| t.a().len() == 1) && self.r.chance(1, 2) {
                    let flat = J::A(b.a().iter().map(|t| t.a()[0].clone()).collect());
                    if self.plain(&ly, &flat) && self.r.chance(1, 2) { return MP(GF::create_multi_point_with_coordinates(&self.cs(&flat))); }
                    let s = self.seq(&ly, &flat);
                    return MP(GF::create_multi_point_from_coordinate_array_sequence(&s));
                }
                MP(if self.r.chance(1, 2) { MultiPoint::new_with_points(&p) } else { GF::create_multi_point_from_points(&p) })
            }
            "ML" => {
                let p: Vec<LineString> = b.a().iter().map(|t| self.line(&ly, t)).collect();
                ML(if m { MultiLineString::new_with_line_strings_precision_model(&p, pm) } else { MultiLineString::new_with_line_strings(&p) })
            }
            "MA" => {
                let p: Vec<Polygon> = b.a().iter().map(|t| self.poly(&ly, t, false)).collect();
                MA(if m { MultiPolygon::new_with_polygons_precision_model(&p, pm) } else if self.r.chance(1, 2) { MultiPolygon::new_with_polygons(&p) } else { GF::create_multi_polygon(&p) })
            }
            x => panic!("harness: kind {}", x),
        }
    }
    pub fn un(&self, v: &[Coordinate]) -> J { self.o.uns("XYZM", v) }
    fn uq(&self, s: &Arr) -> J { self.un(&s.to_coordinate_array()) }
    fn pbody(&self, p: &Point) -> J {
        let s = self.uq(&p.get_coordinate_sequence());
        let c = match p.get_coordinate() { Some(c) => ja![self.un(&[c]).a()[0].clone()], None => ja![] };
        let xy = match (p.get_x(), p.get_y()) { (Some(x), Some(y)) => ja![self.o.inv(0, x), self.o.inv(1, y)], (None, None) => ja![], _ => J::I(BAD) };
        let want = if s.a().is_empty() { ja![] } else { J::A(s.a()[0].a()[..2].to_vec()) };
        if c != s || xy != want || self.un(&p.get_coordinates()) != s || p.get_num_points() != s.a().len() || p.is_empty() != s.a().is_empty() { return J::I(BAD); }
        s
    }
    fn rbody(&self, g: &LinearRing) -> J {
        let s = self.uq(&g.get_coordinate_array_sequence());
        let each: Vec<Coordinate> = (0..g.get_num_points()).map(|i| g.get_coordinate_at_index(i)).collect();
        let first = match g.get_coordinate() { Some(c) => self.un(&[c]), None => ja![] };
        if self.un(&each) != s || self.un(&g.get_coordinates()) != s || first.a() != &s.a()[..first.a().len()] || first.a().is_empty() != s.a().is_empty() { return J::I(BAD); }
        s
    }
    fn abody(&self, p: &Polygon) -> J {
        let mut v = vec![self.rbody(&p.get_exterior_ring())];
        for i in 0..p.get_num_interior_ring() { v.push(self.rbody(&p.get_interior_ring_n(i))); }
        J::A(v)
    }
    fn snapped(&self, p: Point) -> J {
        match (p.get_x(), p.get_y()) { (Some(x), Some(y)) => bit(x == 0. && y == 0.), _ => J::s("skip") }
    }
    fn facts(&self) -> J {
        let s = J::s("*");
        match self.g.as_ref().unwrap() {
            P(p) => J::A(vec![self.pbody(p), self.un(&p.get_coordinates()), J::from(p.get_num_points()), bit(p.is_empty()), J::from(Point::get_dimension()), J::from(Point::get_boundary_dimension()), s.clone(), s.clone(), s]),
            L(l) => {
                let q = self.uq(&l.get_coordinate_sequence());
                let at: Vec<Coordinate> = (0..l.get_num_points()).map(|i| l.get_coordinate_n(i)).collect();
                let pts: Vec<J> = (0..l.get_num_points()).map(|i| self.pbody(&l.get_point_n(i))).collect();
                let body = if self.un(&at) != q || pts.iter().zip(q.a()).any(|(p, c)| *p != J::A(vec![c.clone()])) || l.get_coordinate().map(|c| self.un(&[c]).a()[0].clone()) != q.a().first().cloned()
                    || at.iter().any(|c| !l.is_coordinate(c)) || l.is_coordinate(&Coordinate::new_xy(self.o.f(0, 60), self.o.f(1, 60))) { J::I(BAD) } else { q };
                let end = |p: Option<Point>| match p { Some(p) => self.un(&p.get_coordinates()).a()[0].clone(), None => ja![] };
                J::A(vec![body, self.un(&l.get_coordinates()), J::from(l.get_num_points()), bit(l.is_empty()), J::from(l.get_dimension()), J::from(l.get_boundary_dimension()),
                    if l.is_closed() == l.is_ring() { bit(l.is_closed()) } else { J::I(BAD) }, J::A(vec![end(l.get_start_point()), end(l.get_end_point())]), s])
            }
            R(g) => J::A(vec![self.rbody(g), self.un(&g.get_coordinates()), J::from(g.get_num_points()), bit(g.is_empty()), J::I(1), J::from(g.get_boundary_dimension()), bit(g.is_closed()), s.clone(), s]),
            A(p) => {
                let c = p.get_coordinate().map(|c| self.un(&[c]).a()[0].clone());
                let body = self.abody(p);
                let body = if c != body.a()[0].a().first().cloned() { J::I(BAD) } else { body };
                J::A(vec![body, self.un(&p.get_coordinates()), J::from(p.get_num_points()), bit(p.is_empty()), J::from(p.get_dimension()), J::from(p.get_boundary_dimension()), s.clone(), s,
                    if self.model { self.snapped(p.get_centroid()) } else { J::s("skip") }])
            }
            MP(p) => {
                let n = p.get_num_points();
                let mem: Vec<J> = (0..n).map(|i| self.pbody(&p.get_point_at_index(i).unwrap())).collect();
                let at: Vec<J> = (0..n).map(|i| match p.get_coordinate(i) { Some(c) => self.un(&[c]), None => ja![] }).collect();
                let body = if at != mem || p.get_point_at_index(n).is_some() || !p.has_dimension(0) || p.has_dimension(1) { J::I(BAD) } else { J::A(mem) };
                let m = match p.get_precision_model() { None => J::I(0), Some(m) => if m.equals(PrecisionModel::new_with_scale(-HUGE)) { J::I(1) } else { J::I(BAD) } };
                J::A(vec![body, self.un(&p.get_coordinates()), J::from(n), bit(p.is_empty()), J::from(p.get_dimension()), J::from(p.get_boundary_dimension()), s.clone(), s, m])
            }
            ML(p) => J::A(vec![s.clone(), s.clone(), s.clone(), bit(p.is_empty()), J::from(if p.has_dimension(1) && !p.has_dimension(2) { p.get_dimension() } else { -7 }), J::from(p.get_boundary_dimension()), bit(p.is_closed()), s.clone(), s]),
            MA(p) => {
                let mem: Vec<J> = (0..p.get_num_polygons()).map(|i| self.abody(&p.get_polygon_at_index(i))).collect();
                J::A(vec![J::A(mem), s.clone(), s.clone(), bit(p.is_empty()), J::from(if p.has_dimension(2) && !p.has_dimension(0) { p.get_dimension() } else { -7 }), J::from(p.get_boundary_dimension()), s.clone(), s,
                    if self.model { self.snapped(p.get_centroid()) } else { J::s("skip") }])
            }
        }
    }
    fn copy(g: &G, by_clone: bool) -> G {
        match g {
            P(x) => P(if by_clone { x.clone() } else { x.copy() }), L(x) => L(if by_clone { x.clone() } else { x.copy() }), R(x) => R(if by_clone { x.clone() } else { x.copy() }),
            A(x) => A(if by_clone { x.clone() } else { x.copy() }), MP(x) => MP(x.copy()), ML(x) => ML(x.copy_internal()), MA(x) => MA(if by_clone { x.clone() } else { x.copy() }),
        }
    }
    /// change a geometry in every way its interface offers, including through what it hands out
    fn spoil(g: &mut G) {
        let wreck = |mut s: Arr| for i in 0..s.size() { s.set_ordinate(i, 0, 0.0625); s.set_ordinate(i, 1, 1234.5); };
        match g {
            P(p) => { wreck(p.get_coordinate_sequence()); p.get_envelope_internal(); *p = p.reverse(); }
            L(l) => { wreck(l.get_coordinate_sequence()); l.normalize(); l.init(Arr::new_with_coordinates(&vec![Coordinate::new_xy(0.0625, 1234.5)])); }
            R(q) => { wreck(q.get_coordinate_array_sequence()); q.get_envelope_internal(); *q = q.reverse(); }
            A(p) => { wreck(p.get_exterior_ring().get_coordinate_array_sequence()); p.get_envelope_internal(); p.self_normalize(); *p = p.reverse(); }
            MP(p) => { p.get_envelope_internal(); *p = p.reverse(); }
            ML(p) => *p = p.reverse(),
            MA(p) => { for i in 0..p.get_num_polygons() { p.get_polygon_at_index(i).self_normalize(); } *p = p.reverse(); }
        }
    }
    fn ubox(&self, e: &Envelope) -> J {
        if e.is_null() { return ja![]; }
        J::from(vec![self.o.inv(0, e.get_min_x()), self.o.inv(0, e.get_max_x()), self.o.inv(1, e.get_min_y()), self.o.inv(1, e.get_max_y())])
    }
    fn env(&mut self) -> J {
        let direct = self.r.chance(1, 3);
        let mut g = self.g.take().unwrap();
        let mut v: Vec<Envelope> = vec![];
        let mut over: Vec<Coordinate> = vec![];
        match &mut g {
            P(p) => { if direct { v.push(p.compute_envelope_internal()); } v.push(p.get_envelope_internal()); over = p.get_coordinates(); }
            L(p) => { v.push(p.compute_envelope_internal()); over = p.get_coordinates(); }
            R(p) => { if direct { v.push(p.compute_envelope_internal()); } v.push(p.get_envelope_internal()); over = p.get_coordinates(); }
            A(p) => { if direct { v.push(p.compute_envelope_internal()); } v.push(p.get_envelope_internal()); if !p.is_empty() { over = p.get_coordinates(); } let mut e = p.get_exterior_ring(); v.push(e.get_envelope_internal()); }
            MP(p) => {
                v.push(p.get_envelope_internal());
                over = p.get_coordinates();
                let mut e = Envelope::default();
                for i in 0..p.get_num_points() { e.expand_to_include_envelope(&p.get_point_at_index(i).unwrap().get_envelope_internal()); }
                v.push(e);
            }
            _ => panic!("harness: no envelope"),
        }
        v.push(CoordinateArrays::envelope(&over));
        let mut e = Envelope::default();
        let s = Arr::new_with_coordinates(&over);
        s.expand_envelope(&mut e);
        v.push(e);
        let flat: Vec<f64> = over.iter().flat_map(|c| [c.x, c.y]).collect();
        v.push(PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&flat, 2, 0).expand_envelope(&Envelope::default()));
        self.g = Some(g);
        let b: Vec<J> = v.iter().map(|e| self.ubox(e)).collect();
        if b.iter().all(|x| *x == b[0]) { b[0].clone() } else { J::A(vec![J::I(BAD), J::A(b)]) }
    }
}

impl Sut for C15 {
    fn variants(&self) -> usize { self.ords.len() }
    fn begin(&mut self, v: usize) { self.o = self.ords[v].clone(); self.g = None; }
    fn describe(&self, v: usize) -> String { format!("ordinate tables {}", v) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        if op == "is" {
            let h = self.build(&a[0]);
            let q = |x: bool, y: bool| if x == y { bit(x) } else { J::I(BAD) };
            return match (self.g.as_ref().unwrap(), h) {
                (P(x), P(y)) => q(x.equals_exact(&y, 0.), y.equals_exact(x, 0.)),
                (L(x), L(y)) => q(x.equals_exact(&y, 0.), y.equals_exact(x, 0.)),
                (R(x), R(y)) => q(x.equals_exact(&y, 0.), y.equals_exact(x, 0.)),
                (A(x), A(y)) => q(x.equals_exact(&y, 0.), y.equals_exact(x, 0.)),
                (MP(x), MP(y)) => q(x.equals_exact(y.copy(), 0.), y.equals_exact(x.copy(), 0.)),
                (ML(x), ML(y)) => q(x.equals_exact(&y, 0.), y.equals_exact(x, 0.)),
                (MA(x), MA(y)) => q(x.equals_exact(y.copy(), 0.), y.equals_exact(x.clone(), 0.)),
                _ => panic!("harness: kinds differ"),
            };
        }
        if op == "vertex" {
            let v = a[0].ints();
            let c = Coordinate::new_xyzm(self.o.f(0, v[0]), self.o.f(1, v[1]), self.o.f(2, v[2]), self.o.f(3, v[3]));
            return match self.g.as_ref().unwrap() { L(x) => bit(x.is_coordinate(&c)), _ => J::I(BAD) };
        }
        match op {
            "build" => {
                let g = self.build(&a[0]);
                self.model = a[0].a()[2].b();
                self.ly = a[0].a()[1].str().to_string();
                let rect = if let A(p) = &g { bit(p.is_rectangle()) } else { J::I(0) };
                self.g = Some(g);
                if self.boxes { return if a[0].a()[0].str() == "A" { rect } else { J::I(0) }; }
            }
            "copy" => { let c = self.r.chance(1, 4); let g = Self::copy(self.g.as_ref().unwrap(), c); self.g = Some(g); }
            "rev" => { let g = match self.g.as_ref().unwrap() { P(x) => P(x.reverse()), L(x) => L(x.reverse()), R(x) => R(x.reverse()), A(x) => A(x.reverse()), MP(x) => MP(x.reverse()), ML(x) => ML(x.reverse()), MA(x) => MA(x.reverse()) }; self.g = Some(g); }
            "fork" => { let c = self.r.chance(1, 4); let mut g = self.g.take().unwrap(); let h = Self::copy(&g, c); Self::spoil(&mut g); self.g = Some(h); }
            "keep" => { let c = self.r.chance(1, 4); let g = self.g.take().unwrap(); let mut h = Self::copy(&g, c); Self::spoil(&mut h); self.g = Some(g); }
            "norm" => match self.g.as_mut().unwrap() { L(x) => x.normalize(), A(x) => x.self_normalize(), _ => {} },
            "look" => match self.g.as_mut().unwrap() {
                P(x) => { x.get_envelope_internal(); } L(x) => { x.compute_envelope_internal(); } R(x) => { x.get_envelope_internal(); } A(x) => { x.get_envelope_internal(); }
                MP(x) => { x.get_envelope_internal(); } _ => {}
            },
            "void" => if let L(x) = self.g.as_mut().unwrap() { x.init(Arr::new_with_coordinates(&vec![])); },
            "init" => if matches!(self.g.as_ref().unwrap(), L(_)) {
                let b = if self.ly == "XY" { ja![ja![1, 0, NAN, NAN], ja![0, 1, NAN, NAN]] } else { ja![ja![1, 0, 12, 22], ja![0, 1, NAN, 23]] };
                let ly = self.ly.clone();
                let s = self.seq(&ly, &b);
                if let L(x) = self.g.as_mut().unwrap() { x.init(s); }
            },
            "env" => return self.env(),
            x => panic!("harness: op {}", x),
        }
        if self.boxes { J::I(0) } else { self.facts() }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let ly = if r.chance(1, 2) { "XY" } else { "XYZM" };
        let kinds: &[&str] = if self.boxes { &["P", "L", "R", "A", "MP"] } else { &["P", "L", "R", "A", "MP", "ML", "MA"] };
        let k = *r.pick(kinds);
        let m = *r.pick(&[2, 8, 30]);
        let tag = |r: &mut Rng, x: i64, y: i64| if ly == "XY" { ja![x, y, NAN, NAN] } else { ja![x, y, if r.chance(1, 4) { NAN } else { r.range(-50, 50) }, r.range(-50, 50)] };
        let c = |r: &mut Rng| { let (x, y) = (r.range(-m, m), r.range(-m, m)); tag(r, x, y) };
        let seq = |r: &mut Rng, n: i64, close: bool| { let mut v: Vec<J> = (0..n).map(|_| c(r)).collect(); spike(r, &mut v); if close && n > 0 { let p = v[0].ints(); v.push(tag(r, p[0], p[1])); } J::A(v) };
        let lin = |r: &mut Rng| { let (n, q) = (size(r, 0, 6), r.chance(1, 3)); seq(r, n, q) };
        let tri = |r: &mut Rng, lo: i64, hi: i64| { let n = size(r, 3, 6); let mut v: Vec<J> = (0..n).map(|_| { let (x, y) = (r.range(lo, hi), r.range(lo, hi)); tag(r, x, y) }).collect(); let p = v[0].ints(); v.push(tag(r, p[0], p[1])); v };
        let poly = |r: &mut Rng| {
            if r.chance(1, 8) { return J::A(vec![ja![]]); }
            let (b, h) = (r.range(2, 40), if r.chance(1, 2) { 0 } else { size(r, 1, 4) });
            let mut shell: Vec<J> = vec![tag(r, -b, -b)];
            shell.extend(tri(r, -b, b));
            shell.push(tag(r, b, b));
            shell.push(tag(r, -b, -b));
            let mut v = vec![J::A(shell)];
            for _ in 0..h { v.push(J::A(tri(r, -b, b))); }
            J::A(v)
        };
        let some = |r: &mut Rng| if r.chance(1, 5) { ja![] } else { J::A(vec![c(r)]) };
        let body = match k {
            "P" => some(r),
            "L" | "R" => lin(r),
            "A" => poly(r),
            "MP" => { let n = size(r, 0, 6); J::A((0..n).map(|_| some(r)).collect()) }
            "ML" => { let n = size(r, 0, 5); J::A((0..n).map(|_| lin(r)).collect()) }
            _ => { let n = size(r, 0, 4); J::A((0..n).map(|_| poly(r)).collect()) }
        };
        let model = !self.boxes && k.len() + (k == "A") as usize > 1 && r.chance(1, 2);
        let x = J::A(vec![J::s(k), J::s(ly), bit(model), body]);
        let mut v = vec![("build".to_string(), J::A(vec![x]))];
        let ops: &[&str] = if self.boxes { &["env", "env", "rev", "copy", "norm", "fork", "keep"] } else { &["copy", "rev", "fork", "keep", "look", "look", "init", "void"] };
        for _ in 0..r.range(1, 6) { v.push((r.pick(ops).to_string(), ja![])); }
        v
    }
}
