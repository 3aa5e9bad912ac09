//! Minimal JSON value, parser and printer (no dependencies, so the harness builds quickly offline).
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn f(&self) -> f64 { self.i() as f64 }
    pub fn i(&self) -> i64 {
        match self {
            J::I(x) => *x,
            J::B(b) => *b as i64,
            J::F(f) => *f as i64,
            _ => panic!("json: int expected, got {}", self),
        }
    }
    pub fn u(&self) -> usize {
        self.i() as usize
    }
    pub fn b(&self) -> bool {
        match self {
            J::B(b) => *b,
            J::I(x) => *x != 0,
            _ => panic!("json: bool expected, got {}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("json: string expected, got {}", self),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("json: array expected, got {}", self),
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x).unwrap_or_else(|| panic!("json: no key {}", k)),
            _ => panic!("json: object expected, got {}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.a().iter().map(|x| x.i()).collect()
    }
}

impl From<i64> for J { fn from(x: i64) -> J { J::I(x) } }
impl From<i32> for J { fn from(x: i32) -> J { J::I(x as i64) } }
impl From<usize> for J { fn from(x: usize) -> J { J::I(x as i64) } }
impl From<bool> for J { fn from(x: bool) -> J { J::B(x) } }
impl From<f64> for J { fn from(x: f64) -> J { J::F(x) } }
impl From<&str> for J { fn from(x: &str) -> J { J::s(x) } }
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J { J::A(x.into_iter().map(|y| y.into()).collect()) }
}

#[macro_export]
macro_rules! ja {
    ($($x:expr),* $(,)?) => { $crate::json::J::A(vec![$($crate::json::J::from($x)),*]) };
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::B(b) => write!(f, "{}", b),
            J::I(x) => write!(f, "{}", x),
            J::F(x) => {
                if x.is_finite() && x.fract() == 0.0 && x.abs() < 9.0e15 { write!(f, "{}", *x as i64) }
                else if x.is_nan() { write!(f, "\"NaN\"") }
                else if x.is_infinite() { write!(f, "\"{}\"", if *x > 0.0 { "inf" } else { "-inf" }) }
                else { write!(f, "{:e}", x) }
            }
            J::S(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c if (c as u32) < 32 => write!(f, " ")?,
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            J::A(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { write!(f, ",")?; }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::O(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { write!(f, ",")?; }
                    write!(f, "{}:{}", J::s(k), x)?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub struct P<'a> { b: &'a [u8], i: usize }

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    if p.i != p.b.len() { return Err(format!("trailing data at {}", p.i)); }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() { self.i += 1; } }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        if self.i >= self.b.len() { return Err("eof".into()); }
        match self.b[self.i] {
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.i < self.b.len() && self.b[self.i] == b']' { self.i += 1; return Ok(J::A(v)); }
                    if !v.is_empty() { self.eat(b',')?; }
                    v.push(self.val()?);
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.i < self.b.len() && self.b[self.i] == b'}' { self.i += 1; return Ok(J::O(v)); }
                    if !v.is_empty() { self.eat(b',')?; self.ws(); }
                    let k = match self.val()? { J::S(s) => s, _ => return Err("key".into()) };
                    self.ws();
                    self.eat(b':')?;
                    let x = self.val()?;
                    v.push((k, x));
                }
            }
            b'"' => {
                self.i += 1;
                let mut o: Vec<u8> = vec![];
                while self.i < self.b.len() {
                    let c = self.b[self.i];
                    self.i += 1;
                    if c == b'"' { return Ok(J::S(String::from_utf8_lossy(&o).to_string())); }
                    if c == b'\\' {
                        let d = self.b[self.i];
                        self.i += 1;
                        o.push(match d { b'n' => b'\n', b't' => b'\t', x => x });
                    } else { o.push(c); }
                }
                Err("unterminated string".into())
            }
            b't' => { self.i += 4; Ok(J::B(true)) }
            b'f' => { self.i += 5; Ok(J::B(false)) }
            b'n' => { self.i += 4; Ok(J::Null) }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && (b"+-.eE".contains(&self.b[self.i]) || self.b[self.i].is_ascii_digit()) { self.i += 1; }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if let Ok(x) = t.parse::<i64>() { return Ok(J::I(x)); }
                t.parse::<f64>().map(J::F).map_err(|_| format!("bad token at {}", st))
            }
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.i < self.b.len() && self.b[self.i] == c { self.i += 1; Ok(()) } else { Err(format!("expected {} at {}", c as char, self.i)) }
    }
}
