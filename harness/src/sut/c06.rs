//! C06: centroids.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C06 { embs: Vec<Emb>, cur: Emb, c: Centroid, n: f64, l: f64, r: Rng }

impl C06 {
    pub fn new(seed: u64, thorough: bool) -> C06 {
        let mut embs = similar_small(seed, if thorough { 64 } else { 24 });
        embs.extend(similar_big(seed ^ 6, if thorough { 32 } else { 8 }));
        C06 { embs, cur: Emb::id(), c: Centroid::default(), n: 0.0, l: 0.0, r: Rng::new(seed ^ 66) }
    }
    fn out(&self, c: Option<Coordinate>) -> J {
        match c { None => ja!["none"], Some(c) => {
            let (x, y) = self.cur.unf(c.x, c.y);
            if self.cur.exact { return ja![x, y]; }
            // far away the coordinates themselves are only good to some ulps, and the areas of the
            // parts may be much larger than that of the whole
            let far = (self.cur.tx.abs().max(self.cur.ty.abs())) as f64 + self.l;
            let t = p2(-49) * far * self.n * (2.0 * self.l).powi(2).max(1.0);
            ja![tol(x, t), tol(y, t)]
        } }
    }
    /// number and extent of the points seen in this behaviour
    fn see(&mut self, a: &J) {
        if let J::A(v) = a {
            if let (2, Some(J::I(x)), Some(J::I(y))) = (v.len(), v.get(0), v.get(1)) { self.n += 1.0; self.l = self.l.max(x.abs().max(y.abs()) as f64); return; }
            for x in v { self.see(x); }
        }
    }
    fn poly(&self, a: &J) -> Polygon {
        let r: Vec<LinearRing> = a.a().iter().map(|r| LinearRing::new_with_coordinates(&pts(&self.cur, r))).collect();
        Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec())
    }
    fn line(&self, a: &J) -> LineString {
        LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&pts(&self.cur, a)))
    }
    /// the centroid through a precision model of k steps a unit, in steps; one polygon also as a
    /// polygon of its own; copies and reversals snap alike, before and after the envelope is asked for
    fn snap(&mut self, k: i64, ps: &[J]) -> J {
        let e = *self.r.pick(&[0, 0, 0, -6, 5]);
        let u = p2(e);
        let pm = if k == 0 { PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle) } else if e == 0 && self.r.chance(1, 2) && (k == 1 || k == 2 || k == 8) { PrecisionModel::new_with_scale(-1.0 / k as f64) } else { PrecisionModel::new_with_scale(k as f64 / u) };
        let c = |a: &J| { let p = a.ints(); Coordinate::new_xy(p[0] as f64 * u, p[1] as f64 * u) };
        let ring = |a: &J| LinearRing::new_with_coordinates(&a.a().iter().map(|x| c(x)).collect());
        let rings: Vec<Vec<LinearRing>> = ps.iter().map(|p| p.a().iter().map(|r| ring(r)).collect()).collect();
        let single = rings.len() == 1 && self.r.chance(1, 2);
        let how = self.r.below(4);
        let got = if single {
            let p0 = rings[0][0].copy();
            let h = rings[0][1..].to_vec();
            let mut p = if h.is_empty() && self.r.chance(1, 2) { Polygon::new_with_linear_ring_precision_model(&p0, pm) } else { Polygon::new_with_linear_ring_vec_precision_model(&p0, &h, pm) };
            if self.r.chance(1, 2) { p.get_envelope_internal(); }
            match how { 0 => p.get_centroid(), 1 => p.copy().get_centroid(), 2 => p.reverse().get_centroid(), _ => p.reverse().copy().reverse().get_centroid() }
        } else {
            // the models of the parts do not matter, only that of the whole
            let other = PrecisionModel::new_with_scale(0.25 / u);
            let parts: Vec<Polygon> = rings.iter().map(|r| if self.r.chance(1, 2) { Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec()) } else { Polygon::new_with_linear_ring_vec_precision_model(&r[0], &r[1..].to_vec(), other) }).collect();
            let m = MultiPolygon::new_with_polygons_precision_model(&parts, pm);
            match how { 0 => m.get_centroid(), 1 => m.copy().get_centroid(), 2 => m.reverse().get_centroid(), _ => m.reverse().copy().reverse().get_centroid() }
        };
        if k == 0 {
            // half a unit in the last place of a single-precision number
            let one = |v: f64| if (v as f32) as f64 == v { tol(v / u, (v / u).abs() * 6.0e-8 + 1e-12) } else { J::I(BAD) };
            return match got.get_coordinate() { None => J::s("none"), Some(c) => J::A(vec![one(c.x), one(c.y)]) };
        }
        let step = |v: f64| { let n = (v / u * k as f64).round(); if (v / u - n / k as f64).abs() <= 1e-12 * (1.0 + n.abs()) { J::I(n as i64) } else { J::I(BAD) } };
        match got.get_coordinate() { None => J::s("none"), Some(c) => J::A(vec![step(c.x), step(c.y)]) }
    }
    /// two routes to the same centroid must agree
    fn both(&self, a: Option<Coordinate>, b: Option<Coordinate>) -> J {
        let same = match (&a, &b) { (None, None) => true, (Some(x), Some(y)) => x.x == y.x && x.y == y.y, _ => false };
        if same { self.out(a) } else { ja![BAD] }
    }
}

impl Sut for C06 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; self.c = Centroid::default(); self.n = 0.0; self.l = 0.0; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        for x in a { self.see(x); }
        match op {
            "new" => self.out(self.c.get_centroid()),
            "add" => {
                match a[0].str() {
                    "P" => { let p = pt(&self.cur, &a[1]); self.c.add_point(&p); }
                    "L" => { let l = pts(&self.cur, &a[1]); self.c.add_line_segments(&l); }
                    _ => { let p = self.poly(&a[1]); self.c.add_polygon(&p); }
                }
                self.out(self.c.get_centroid())
            }
            "one" => match a[0].str() {
                "P" => {
                    let p = Point::new_with_coordinate(&pt(&self.cur, &a[1]), None);
                    self.both(Centroid::get_centroid_from_point(&p), Centroid::new_from_point(&p).get_centroid())
                }
                "L" => self.out(Centroid::new_from_line_string(&self.line(&a[1])).get_centroid()),
                _ => {
                    let p = self.poly(&a[1]);
                    self.both(Centroid::get_centroid_from_polygon(&p), p.get_centroid().get_coordinate())
                }
            },
            "multi" => {
                let m = MultiPolygon::new_with_polygons(&a.iter().map(|p| self.poly(p)).collect());
                self.both(Centroid::get_centroid_from_multi_polygon(&m), m.get_centroid().get_coordinate())
            }
            "snap" => self.snap(a[0].i(), a[1].a()),
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        fn comp(r: &mut Rng, areal: bool) -> J {
            match if areal { 5 } else { r.below(6) } {
                0 => J::A(vec![J::s("P"), rpt(r, 60)]),
                1 | 2 => { let n = size(r, 0, 6); let m = *r.pick(&[1, 30]); J::A(vec![J::s("L"), J::A((0..n).map(|_| rpt(r, m)).collect())]) }
                _ => { let k = r.range(1, 3); J::A(vec![J::s("A"), {
                    let shell = simple_ring(r);
                    let mut v = vec![jpts(&shell)];
                    if !shell.is_empty() { for _ in 1..k { v.push(jpts(&simple_ring(r))); } }
                    J::A(v)
                }]) }
            }
        }
        match r.below(5) {
            4 => { let n = r.range(1, 3); vec![("snap".into(), J::A(vec![J::I(*r.pick(&[0, 1, 2, 3, 8, 10, 100])), J::A((0..n).map(|_| comp(r, true).a()[1].clone()).collect())]))] }
            0 => vec![("one".into(), comp(r, false))],
            1 => { let n = size(r, 1, 3); vec![("multi".into(), J::A((0..n).map(|_| comp(r, true).a()[1].clone()).collect()))] }
            _ => {
                let n = size(r, 1, 4);
                let mut v = vec![("new".to_string(), J::A(vec![]))];
                for _ in 0..n { v.push(("add".into(), comp(r, false))); }
                v
            }
        }
    }
}
