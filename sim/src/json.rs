//! Minimal JSON value: plans, replay files and evidence.
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Int(i128),
    Flt(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub trait ToJ {
    fn j(self) -> J;
}
macro_rules! toj_int { ($($t:ty)*) => {$( impl ToJ for $t { fn j(self) -> J { J::Int(self as i128) } } )*} }
toj_int!(i32 i64 u8 u16 u32 u64 usize i128 bool);
impl ToJ for &str {
    fn j(self) -> J {
        J::Str(self.to_string())
    }
}
impl ToJ for String {
    fn j(self) -> J {
        J::Str(self)
    }
}
impl ToJ for f64 {
    fn j(self) -> J {
        J::Flt(self)
    }
}
impl ToJ for J {
    fn j(self) -> J {
        self
    }
}
impl<T: ToJ> ToJ for Vec<T> {
    fn j(self) -> J {
        J::Arr(self.into_iter().map(|x| x.j()).collect())
    }
}
impl<T: ToJ> ToJ for Option<T> {
    fn j(self) -> J {
        match self {
            Some(x) => x.j(),
            None => J::Null,
        }
    }
}

#[macro_export]
macro_rules! jo {
    ($($k:literal : $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::ToJ::j($v))),*])
    };
}

static NULL: J = J::Null;

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            match o.iter_mut().find(|(n, _)| n == k) {
                Some(e) => e.1 = v,
                None => o.push((k.to_string(), v)),
            }
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            _ => 0,
        }
    }
    pub fn i(&self, k: &str) -> i64 {
        self.get(k).int() as i64
    }
    pub fn u(&self, k: &str) -> u64 {
        self.get(k).int() as u64
    }
    pub fn s(&self, k: &str) -> &str {
        self.get(k).str()
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn a(&self, k: &str) -> &[J] {
        self.get(k).arr()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Flt(f) => write!(o, "{:.3}", f).unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let mut p = P { b: s.as_bytes(), i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i == p.b.len() {
            Some(v)
        } else {
            None
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if *self.b.get(self.i)? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.val()?));
                    if self.eat(b',').is_some() {
                        continue;
                    }
                    self.eat(b'}')?;
                    return Some(J::Obj(v));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b']').is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.val()?);
                    if self.eat(b',').is_some() {
                        continue;
                    }
                    self.eat(b']')?;
                    return Some(J::Arr(v));
                }
            }
            b'"' => Some(J::Str(self.string()?)),
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Int(1)),
            b'f' => self.lit("false", J::Int(0)),
            _ => {
                let st = self.i;
                while self.i < self.b.len() && b"+-0123456789.eE".contains(&self.b[self.i]) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).ok()?;
                match t.parse::<i128>() {
                    Ok(i) => Some(J::Int(i)),
                    Err(_) => t.parse::<f64>().ok().map(J::Flt),
                }
            }
        }
    }
    fn lit(&mut self, s: &str, v: J) -> Option<J> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Some(v)
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        if *self.b.get(self.i)? != b'"' {
            return None;
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'u' => {
                            let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
                            self.i += 4;
                            let ch = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                            let mut t = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        }
                        e => out.push(e),
                    }
                }
                c => out.push(c),
            }
        }
    }
}
