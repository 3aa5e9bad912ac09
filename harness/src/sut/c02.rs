//! C02: point in ring, point on line.
use super::util::*;
use crate::emb::*;
use crate::json::J;
use crate::rng::Rng;
use crate::Sut;
use geos_rs::verif::*;

pub struct C02 { embs: Vec<Emb>, cur: Emb, r: Rng }

impl C02 {
    pub fn new(seed: u64, thorough: bool) -> C02 {
        let k = if thorough { 4 } else { 1 };
        let mut embs = similar_small(seed, 8 * k);
        embs.extend(similar_big(seed, 8 * k));
        embs.extend(affine(seed, 24 * k, 256));
        C02 { embs, cur: Emb::id(), r: Rng::new(seed) }
    }
    /// every route to the location of p in the ring; they must agree, else a value no spec gives
    fn locate(&mut self, p: &Coordinate, ring: &Vec<Coordinate>, seqs: &[CoordinateArraySequence], packed: &[PackedCoordinateSequenceDouble]) -> i64 {
        let v = RayCrossingCounter::locate_point_in_ring_vec(p, ring) as i64;
        let mut all = vec![PointLocation::locate_in_ring(p, ring) as i64];
        for s in seqs { all.push(RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(p, s) as i64); }
        for s in packed { all.push(RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(p, s) as i64); }
        if PointLocation::is_in_ring(p, ring) != (v != 2) { return 100 + v; }
        // feed the counter by hand, in a random order and in random directions
        let n = ring.len();
        if n > 1 {
            let mut idx: Vec<usize> = (1..n).collect();
            for i in (1..idx.len()).rev() { let j = self.r.below(i + 1); idx.swap(i, j); }
            let mut c = RayCrossingCounter::new_with_coordinate(p);
            let flip = self.r.chance(1, 2);
            let skip = self.r.chance(1, 2);
            for i in idx {
                let (a, b) = if flip { (&ring[i], &ring[i - 1]) } else { (&ring[i - 1], &ring[i]) };
                // segments that cannot touch the ray need not be counted
                if skip && (a.y.max(b.y) < p.y || a.y.min(b.y) > p.y || a.x.max(b.x) < p.x) { continue; }
                c.count_segment(a, b);
            }
            all.push(c.get_location() as i64);
            if c.is_point_in_polygon() != (v != 2) { return 200 + v; }
            if c.is_on_segment() != (v == 1) { return 300 + v; }
            if v != 1 && (c.get_count() % 2 == 1) != (v == 0) { return 500 + v; }
        }
        if all.iter().any(|x| *x != v) { return 400 + v; }
        v
    }
    fn online(&self, p: &Coordinate, line: &Vec<Coordinate>, seqs: &[CoordinateArraySequence]) -> i64 {
        let v = PointLocation::is_on_line_coordinates(p, line);
        for s in seqs { if PointLocation::is_on_line_coordinate_array_sequence(p, s) != v { return 100; } }
        v as i64
    }
    fn seqs(&self, ring: &Vec<Coordinate>) -> (Vec<CoordinateArraySequence>, Vec<PackedCoordinateSequenceDouble>) {
        let with = |f: &dyn Fn(&Coordinate, f64) -> Coordinate| ring.iter().enumerate().map(|(i, c)| f(c, i as f64 * 7.0 + 1.0)).collect::<Vec<_>>();
        let s = vec![
            CoordinateArraySequence::new_with_coordinates_dimension_measures(ring.clone(), 2, 0),
            CoordinateArraySequence::new_with_coordinates_dimension_measures(with(&|c, h| Coordinate::new_xyz(c.x, c.y, h)), 3, 0),
            CoordinateArraySequence::new_with_coordinates_dimension_measures(with(&|c, h| Coordinate::new_xym(c.x, c.y, h)), 3, 1),
        ];
        let mut p = vec![];
        for (d, m) in [(2usize, 0), (3, 0), (3, 1), (4, 1)] {
            let mut v = vec![];
            for (i, c) in ring.iter().enumerate() { v.push(c.x); v.push(c.y); for k in 2..d { v.push((i * 3 + k) as f64); } }
            p.push(PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&v, d as i32, m));
        }
        (s, p)
    }
}

impl Sut for C02 {
    fn variants(&self) -> usize { self.embs.len() }
    fn begin(&mut self, v: usize) { self.cur = self.embs[v]; }
    fn describe(&self, v: usize) -> String { format!("{:?}", self.embs[v]) }
    fn exec(&mut self, op: &str, a: &[J]) -> J {
        let e = self.cur;
        match op {
            "locate" | "online" => {
                let ring = pts(&e, &a[0]);
                let (s, p) = self.seqs(&ring);
                let (lo, hi) = (a[1].i(), a[2].i());
                let mut out = vec![];
                for y in lo..=hi { for x in lo..=hi {
                    let q = e.pt(x, y);
                    out.push(if op == "locate" { self.locate(&q, &ring, &s, &p) } else { self.online(&q, &ring, &s) });
                } }
                J::from(out)
            }
            "locate1" => { let ring = pts(&e, &a[0]); let (s, p) = self.seqs(&ring); J::I(self.locate(&pt(&e, &a[1]), &ring, &s, &p)) }
            // a polygonal geometry of several rings, through one counter
            "locaten" => {
                let p = pt(&e, &a[1]);
                let mut c = RayCrossingCounter::new_with_coordinate(&p);
                let mut segs = vec![];
                for ring in a[0].a() {
                    let mut ring = pts(&e, ring);
                    if self.r.chance(1, 2) { ring.reverse(); }
                    for i in 1..ring.len() { segs.push((ring[i - 1], ring[i])); }
                }
                if self.r.chance(1, 2) { for i in (1..segs.len()).rev() { let j = self.r.below(i + 1); segs.swap(i, j); } }
                for (u, v) in &segs { c.count_segment(u, v); }
                let v = c.get_location() as i64;
                if c.is_on_segment() != (v == 1) { return J::I(300 + v); }
                if c.is_point_in_polygon() != (v != 2) { return J::I(200 + v); }
                J::I(v)
            }
            "online1" => { let ring = pts(&e, &a[0]); let (s, _) = self.seqs(&ring); J::I(self.online(&pt(&e, &a[1]), &ring, &s)) }
            "onseg" => bit(PointLocation::is_on_segment(&pt(&e, &a[2]), &pt(&e, &a[0]), &pt(&e, &a[1]))),
            x => panic!("harness: op {}", x),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Vec<(String, J)> {
        let m = *r.pick(&[2, 5, 12, 100]);
        let n = if r.chance(1, 200) { r.range(256, 1100) as usize } else { *r.pick(&[3, 4, 5, 5, 6, 6, 8, 8, 12, 30, 120]) };
        let mut v: Vec<(i64, i64)> = vec![];
        while v.len() < n {
            let p = if v.is_empty() || r.chance(1, 2) { (r.range(-m, m), r.range(-m, m)) } else {
                let q = v[v.len() - 1];
                match r.below(4) {
                    0 => q,                                    // repeated point
                    1 => (r.range(-m, m), q.1),                // horizontal
                    2 => (q.0, r.range(-m, m)),                // vertical
                    _ => *r.pick(&v),                          // revisit
                }
            };
            v.push(p);
        }
        // a long zigzag: hundreds of crossings to one side
        let zigzag = n >= 30 && r.chance(1, 2);
        if zigzag { for (i, p) in v.iter_mut().enumerate() { p.1 = if i % 2 == 0 { p.1.abs().max(1) } else { -p.1.abs().max(1) }; } }
        let line = !zigzag && r.chance(1, 4);
        if !line { let f = v[0]; v.push(f); }
        // query: random, at the height of a vertex, or on the middle of an edge
        let q = if zigzag && r.chance(2, 3) { (r.range(-m, 0), r.range(-1, 1)) } else { match r.below(4) {
            0 => (r.range(-m, m), r.range(-m, m)),
            1 => (r.range(-m - 1, m + 1), r.pick(&v).1),
            2 => *r.pick(&v),
            _ => { let i = r.below(v.len() - 1); ((v[i].0 + v[i + 1].0) / 2, (v[i].1 + v[i + 1].1) / 2) }
        } };
        if r.chance(1, 4) {
            // split the vertices into up to three closed rings
            let mut rings = vec![];
            let k = r.range(1, 3) as usize;
            for part in v.chunks((v.len() + k - 1) / k) {
                let mut w: Vec<J> = part.iter().map(|p| ja![p.0, p.1]).collect();
                let f = w[0].clone();
                w.push(f);
                rings.push(J::A(w));
            }
            return vec![("locaten".into(), ja![J::A(rings), ja![q.0, q.1]])];
        }
        let ring = J::A(v.iter().map(|p| ja![p.0, p.1]).collect());
        if r.chance(1, 8) {
            let i = r.below(v.len() - 1);
            return vec![("onseg".into(), ja![ja![v[i].0, v[i].1], ja![v[i + 1].0, v[i + 1].1], ja![q.0, q.1]])];
        }
        vec![(if line { "online1" } else { "locate1" }.into(), ja![ring, ja![q.0, q.1]])]
    }
}
