//! Conformance harness: replays behaviours enumerated by TLC against the real crate
//! (`replay JOB FILE`) and records behaviours of the real crate for TLC to validate
//! (`record JOB OUT`).
#[macro_use]
mod json;
mod rng;
mod emb;
mod big;
mod sut;
use json::{parse, J};
use rng::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub trait Sut {
    /// number of variants (embeddings) a behaviour can be run under
    fn variants(&self) -> usize { 1 }
    /// start a fresh behaviour under a variant
    fn begin(&mut self, _variant: usize) {}
    fn describe(&self, variant: usize) -> String { format!("variant {}", variant) }
    /// one step against the real code; the result is expressed in terms of the specification
    fn exec(&mut self, op: &str, a: &[J]) -> J;
    /// a random behaviour for recording
    fn gen(&mut self, _r: &mut Rng) -> Vec<(String, J)> { vec![] }
    /// arguments as they should be logged (what the specification reads)
    fn log_args(&self, a: &J) -> J { a.clone() }
}

/// Does the observed value match the expectation of the specification?
/// Expectations: plain values compare exactly (an integer n also matches the float n exactly);
/// ["q",n,d] is the rational n/d and ["sqrt",n,d] its square root, up to rounding;
/// ["dd",..] etc are plain arrays; ["any",..] any of; ["set",..] the same values in any order;
/// "*" matches everything.
pub fn matches(exp: &J, act: &J) -> bool {
    match (exp, act) {
        (J::S(e), _) if e == "*" => true,
        // the harness made no observation (the claim does not carry over to this embedding)
        (_, J::S(a)) if a == "skip" => true,
        // several observations of the same value
        (_, J::O(m)) if m.len() == 1 && m[0].0 == "all" => m[0].1.a().iter().all(|x| matches(exp, x)),
        // one observation that can be read in two ways
        (_, J::O(m)) if m.len() == 1 && m[0].0 == "either" => m[0].1.a().iter().any(|x| matches(exp, x)),
        (J::A(e), _) if e.len() >= 2 && e[0] == J::s("q") => {
            let x = e[1].i() as f64 / e[2].i() as f64;
            close(x, act, 1e-9)
        }
        (J::A(e), _) if e.len() >= 2 && e[0] == J::s("sqrt") => {
            let x = (e[1].i() as f64 / e[2].i() as f64).sqrt();
            close(x, act, 1e-9)
        }
        (J::A(e), _) if !e.is_empty() && e[0] == J::s("sumsqrt") => {
            let x: f64 = e[1..].iter().map(|n| (n.i() as f64).sqrt()).sum();
            close(x, act, 1e-9)
        }
        // mean of the points <<x/2, y/2>> weighted with the square roots of the given integers
        (J::A(e), J::A(a)) if e.len() > 1 && e[0] == J::s("wmean") => {
            let w = |k: usize| e[1..].iter().map(|t| (t.a()[0].i() as f64).sqrt() * if k == 0 { 1.0 } else { t.a()[k].i() as f64 / 2.0 }).sum::<f64>();
            a.len() == 2 && close(w(1) / w(0), &a[0], 1e-8) && close(w(2) / w(0), &a[1], 1e-8)
        }
        // the angle of the vector (d, c), or n/d of a half turn: up to whole turns
        (J::A(e), J::F(a)) if e.len() == 3 && (e[0] == J::s("ang") || e[0] == J::s("pi")) => {
            let pi = std::f64::consts::PI;
            let x = if e[0] == J::s("ang") { e[1].f().atan2(e[2].f()) } else { e[1].f() / e[2].f() * pi };
            let d = (a - x) / (2.0 * pi);
            (d - d.round()).abs() < 1e-12
        }
        (J::A(e), J::O(_)) if e.len() == 3 && e[0] == J::s("pi") => match (act.get("v"), act.get("t")) {
            (J::F(v), J::F(t)) => { let pi = std::f64::consts::PI; let d = (v - e[1].f() / e[2].f() * pi) / (2.0 * pi); (d - d.round()).abs() * 2.0 * pi <= *t }
            _ => false,
        },
        // b + k * sqrt(n / d)
        (J::A(e), _) if e.len() == 5 && e[0] == J::s("plus") => close(e[1].f() + e[2].f() * (e[3].f() / e[4].f()).sqrt(), act, 1e-12),
        // an extended precision number hi + lo, good to t, against the polynomial (ratio of polynomials,
        // root of one) at e = 2^-k, scaled by 2^s
        (J::A(e), J::O(_)) if !e.is_empty() && (e[0] == J::s("poly") || e[0] == J::s("ratio") || e[0] == J::s("root")) => dd_matches(e, act),
        // m + n * sqrt 2
        (J::A(e), _) if e.len() == 3 && e[0] == J::s("r2") => close(e[1].i() as f64 + e[2].i() as f64 * 2f64.sqrt(), act, 1e-9),
        // the single-precision number nearest to n/d: the observation carries its own half unit
        (J::A(e), J::O(_)) if e.len() == 3 && e[0] == J::s("single") => match (act.get("v"), act.get("t")) {
            (J::F(v), J::F(t)) => (v - e[1].f() / e[2].f()).abs() <= *t,
            _ => false,
        },
        // up to rounding, throughout
        (J::A(e), _) if e.len() == 2 && e[0] == J::s("near") => near(&e[1], act),
        // a point <<x/d, y/d>>, or the observation "inside" where only containment is observable
        (J::A(e), J::S(a)) if e.len() == 4 && e[0] == J::s("pt") => a == "inside",
        // the observation is the image of the point under an exactly known affine map, good to its own tolerance
        (J::A(e), J::O(_)) if e.len() == 4 && e[0] == J::s("pt") => {
            let m: Vec<i128> = act.get("map").ints().iter().map(|x| *x as i128).collect();
            let (x, y, d) = (e[1].i() as i128, e[2].i() as i128, e[3].i() as i128);
            // (x, y) are in units of 1 (the scale is taken out) relative to the anchor of the map
            let f = |p: i128, q: i128| { let n = p * x + q * y; (n.div_euclid(d)) as f64 + (n.rem_euclid(d)) as f64 / d as f64 };
            let (ex, ey) = (f(m[0], m[1]), f(m[2], m[3]));
            let g = |k: &str| match act.get(k) { J::F(v) => *v, v => v.f() };
            (g("x") - ex).abs() <= g("tx") && (g("y") - ey).abs() <= g("tx")
        }
        (J::A(e), J::A(a)) if e.len() == 4 && e[0] == J::s("pt") => a.len() == 2
            && close(e[1].i() as f64 / e[3].i() as f64, &a[0], 1e-8) && close(e[2].i() as f64 / e[3].i() as f64, &a[1], 1e-8),
        (J::A(e), _) if !e.is_empty() && e[0] == J::s("any") => e[1..].iter().any(|x| matches(x, act)),
        (J::A(e), J::A(a)) if !e.is_empty() && e[0] == J::s("set") => {
            if e.len() - 1 != a.len() { return false; }
            let mut used = vec![false; a.len()];
            'o: for x in &e[1..] {
                for (i, y) in a.iter().enumerate() {
                    if !used[i] && matches(x, y) { used[i] = true; continue 'o; }
                }
                return false;
            }
            true
        }
        (J::A(e), J::A(a)) => e.len() == a.len() && e.iter().zip(a).all(|(x, y)| matches(x, y)),
        (J::I(e), J::F(f)) => *f == *e as f64,
        (J::I(e), J::I(a)) => e == a,
        (J::B(e), J::B(a)) => e == a,
        (J::S(e), J::S(a)) => e == a,
        (J::S(e), J::F(f)) => (e == "NaN" && f.is_nan()) || (e == "inf" && *f == f64::INFINITY) || (e == "-inf" && *f == f64::NEG_INFINITY),
        _ => false,
    }
}

fn dd_matches(e: &[J], act: &J) -> bool {
    use big::Big;
    let f = |k: &str| match act.get(k) { J::F(x) => *x, x => x.f() };
    let (k, s) = (act.get("k").i(), act.get("s").i());
    if !f("hi").is_finite() || !f("lo").is_finite() { return false; }
    let v = Big::of(f("hi")).add(&Big::of(f("lo")));
    let t = Big::of(f("t"));
    let ints = |x: &[J]| -> Vec<i64> { x.iter().map(|y| y.i()).collect() };
    if e[0] == J::s("poly") {
        v.sub(&Big::poly(&ints(&e[1..]), k).scale(s)).abs().le(&t)
    } else if e[0] == J::s("ratio") {
        let (p, q) = (Big::poly(&ints(e[1].a()), k).scale(s), Big::poly(&ints(e[2].a()), k));
        v.mul(&q).sub(&p).abs().le(&t.mul(&q).abs())
    } else {
        let p = Big::poly(&ints(e[1].a()), k).scale(s);
        v.mul(&v).sub(&p).abs().le(&t.mul(&v).abs().scale(1)) && v.le(&v.clone().abs())
    }
}

fn near(exp: &J, act: &J) -> bool {
    match (exp, act) {
        (J::A(e), J::A(a)) if e.is_empty() || !matches!(e[0], J::S(_)) || e.len() == a.len() => e.len() == a.len() && e.iter().zip(a).all(|(x, y)| near(x, y)),
        (J::I(e), J::F(_)) => close(*e as f64, act, 1e-9),
        _ => matches(exp, act),
    }
}

/// an observation that is only good to an absolute tolerance of its own carries it along
fn close(x: f64, act: &J, tol: f64) -> bool {
    if let J::O(_) = act {
        let (v, t) = match (act.get("v"), act.get("t")) { (J::F(v), J::F(t)) => (*v, *t), _ => return false };
        return (x - v).abs() <= t;
    }
    let y = match act { J::F(f) => *f, J::I(i) => *i as f64, _ => return false };
    (x - y).abs() <= tol * (1.0 + x.abs())
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

fn set_current(s: String) { if let Ok(mut g) = CURRENT.lock() { *g = s; } }

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == last { idle += 1; } else { idle = 0; last = p; }
            if idle >= 30 {
                let c = CURRENT.lock().map(|g| g.clone()).unwrap_or_default();
                println!("RESULT {{\"cases\":{},\"evals\":{},\"distinct\":0,\"violations\":[{{\"kind\":\"hang\",\"case\":{}}}]}}", p, p, J::S(c));
                std::process::exit(0);
            }
        }
    });
}

pub fn run_step(s: &mut dyn Sut, op: &str, a: &[J]) -> Result<J, String> {
    match catch_unwind(AssertUnwindSafe(|| s.exec(op, a))) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = if let Some(x) = e.downcast_ref::<String>() { x.clone() } else if let Some(x) = e.downcast_ref::<&str>() { x.to_string() } else { "?".into() };
            // an error of the harness itself must never be mistaken for one of the code under test
            if m.starts_with("json:") || m.starts_with("embedding out of range") || m.starts_with("harness:") {
                eprintln!("HARNESS-ERROR {} in op {} {}", m, op, J::A(a.to_vec()));
                std::process::exit(3);
            }
            Err(m)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|x| x == k).map(|i| args[i + 1].clone());
    let seed: u64 = opt("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let thorough = opt("--tier").map(|x| x == "thorough").unwrap_or(false);
    watchdog();
    match args[1].as_str() {
        "replay" => replay(&args[2], &args[3], seed, thorough, opt("--per").map(|x| x.parse().unwrap()).unwrap_or(usize::MAX)),
        "inputs" => inputs(&args[2], &args[3], seed, thorough, opt("--n").map(|x| x.parse().unwrap()).unwrap_or(1000)),
        "record" => record(&args[2], &args[3], seed, thorough, opt("--n").map(|x| x.parse().unwrap()).unwrap_or(1000)),
        x => { eprintln!("unknown command {}", x); std::process::exit(2) }
    }
}

/// nothing was compared in this step
fn idle(exp: &J, act: &J) -> bool {
    match (exp, act) {
        (J::S(e), _) if e == "*" => true,
        (_, J::S(a)) if a == "skip" => true,
        (_, J::O(m)) if m.len() == 1 && m[0].0 == "all" => m[0].1.a().iter().all(|x| idle(exp, x)),
        (J::A(e), J::A(a)) if e.len() == a.len() && !e.is_empty() => e.iter().zip(a.iter()).all(|(x, y)| idle(x, y)),
        _ => false,
    }
}

fn replay(job: &str, file: &str, seed: u64, thorough: bool, per: usize) {
    let mut s = sut::make(job, seed, thorough);
    let nv = s.variants();
    let rd = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(file).unwrap());
    let (mut cases, mut evals, mut steps_n) = (0u64, 0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut ops: std::collections::BTreeMap<String, (i64, i64)> = Default::default();
    let mut viol: Vec<J> = vec![];
    let mut samples: Vec<J> = vec![];
    let mut r = Rng::new(seed);
    for line in rd.lines() {
        let line = line.unwrap();
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let inner = if line.starts_with("\"[") {
            match parse(&line) { Ok(J::S(x)) => x, _ => continue }
        } else if line.starts_with('[') { line } else { continue };
        let case = match parse(&inner) {
            Ok(x) => x,
            Err(e) => { eprintln!("HARNESS-ERROR bad case {} {}", e, inner); std::process::exit(3) }
        };
        cases += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        inner.hash(&mut h);
        if !seen.insert(h.finish()) { continue; }
        if samples.len() < 3 || (samples.len() < 6 && r.chance(1, 500)) { samples.push(case.clone()); }
        let n = per.min(nv);
        for q in 0..n {
            // variant 0 (identity) always; the others rotate when not all are run
            let v = if n == nv { q } else if q == 0 { 0 } else { 1 + r.below(nv - 1) };
            set_current(format!("{} {}", v, inner));
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            s.begin(v);
            evals += 1;
            for (at, st) in case.a().iter().enumerate() {
                steps_n += 1;
                let st = st.a();
                let act = run_step(s.as_mut(), st[0].str(), st[1].a());
                let (ok, shown) = match &act {
                    Ok(x) => (matches(&st[2], x), x.clone()),
                    Err(m) => (st[2] == J::s("panic"), J::S(format!("panic: {}", m))),
                };
                let o = ops.entry(st[0].str().to_string()).or_insert((0, 0));
                if act.as_ref().map_or(false, |x| idle(&st[2], x)) { o.1 += 1 } else { o.0 += 1 }
                if !ok {
                    if viol.len() < 20 {
                        viol.push(J::O(vec![
                            ("kind".into(), J::s("replay")), ("job".into(), J::s(job)),
                            ("embedding".into(), J::S(s.describe(v))), ("variant".into(), J::from(v)),
                            ("case".into(), case.clone()), ("step".into(), J::from(at)),
                            ("expected".into(), st[2].clone()), ("observed".into(), shown),
                        ]));
                    }
                    break;
                }
            }
        }
        if viol.len() >= 20 { break; }
    }
    let out = J::O(vec![
        ("cases".into(), J::I(cases as i64)), ("distinct".into(), J::from(seen.len())), ("evals".into(), J::I(evals as i64)),
        ("steps".into(), J::I(steps_n as i64)), ("variants".into(), J::from(nv)),
        ("judged".into(), J::O(ops.into_iter().map(|(k, v)| (k, ja![v.0, v.1])).collect())),
        ("samples".into(), J::A(samples)), ("violations".into(), J::A(viol)),
    ]);
    println!("RESULT {}", out);
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

/// random inputs for the specification to answer: one line {steps: [{op, a}, ...]} per behaviour
fn inputs(job: &str, out: &str, seed: u64, thorough: bool, n: usize) {
    let mut s = sut::make(job, seed, thorough);
    let mut r = Rng::new(seed.wrapping_add(991));
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        set_current(format!("input {}", i));
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let steps = s.gen(&mut r);
        let v: Vec<J> = steps.into_iter().map(|(op, a)| J::O(vec![("op".into(), J::S(op)), ("a".into(), a)])).collect();
        writeln!(w, "{}", J::O(vec![("steps".into(), J::A(v))])).unwrap();
    }
    w.flush().unwrap();
    println!("RESULT {{\"inputs\":{}}}", n);
    std::process::exit(0);
}

fn record(job: &str, out: &str, seed: u64, thorough: bool, n: usize) {
    let mut s = sut::make(job, seed, thorough);
    let nv = s.variants();
    let mut r = Rng::new(seed.wrapping_add(77));
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let (mut events, mut hist) = (0usize, 0usize);
    let mut seen: HashSet<u64> = HashSet::new();
    while events < n {
        let v = r.below(nv);
        let steps = s.gen(&mut r);
        if steps.is_empty() { break; }
        s.begin(v);
        hist += 1;
        for (k, (op, a)) in steps.iter().enumerate() {
            set_current(format!("{} {} {}", v, op, a));
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let la = s.log_args(a);
            let (ok, res, msg) = match run_step(s.as_mut(), op, a.a()) { Ok(x) => (true, x, String::new()), Err(m) => (false, J::A(vec![]), m) };
            let mut h = std::collections::hash_map::DefaultHasher::new();
            format!("{} {}", op, la).hash(&mut h);
            seen.insert(h.finish());
            let mut ev = vec![
                ("op".into(), J::s(op)), ("first".into(), J::B(k == 0)), ("a".into(), la), ("ok".into(), J::B(ok)), ("r".into(), res),
                ("v".into(), J::from(v)),
            ];
            if !ok { ev.push(("msg".into(), J::S(msg))); }
            writeln!(w, "{}", J::O(ev)).unwrap();
            events += 1;
            if !ok { break; }
        }
    }
    w.flush().unwrap();
    println!("RESULT {{\"events\":{},\"histories\":{},\"distinct\":{}}}", events, hist, seen.len());
    std::process::exit(0);
}
