//! JSON oracle: what a value means in JSON, a strict JSON reader, and the comparison between the two.

use crate::ev::*;
use crate::proto::N;
use sval::tags;

/// What a value must decode to.
#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Null,
    Bool(bool),
    Int(String),
    F32(f32),
    F64(f64),
    /// arbitrary precision number
    Dec(String),
    Str(String),
    Arr(Vec<E>),
    Obj(Vec<(K, E)>),
    /// already encoded
    Raw(J),
}

/// Object keys: text, or the text of a number.
#[derive(Debug, Clone, PartialEq)]
pub enum K {
    Str(String),
    Of(Box<E>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// The value can't be represented: a map key that is not a scalar.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct BadKey;

fn named(m: &Meta) -> Option<K> {
    if let Some(l) = &m.label {
        return Some(K::Str(l.text.clone()));
    }
    match &m.index {
        Some(i) if i.val <= i64::MAX as i128 => Some(K::Of(Box::new(E::Int(i.val.to_string())))),
        _ => None,
    }
}

fn unit(m: &Meta) -> E {
    if m.tag == Some(tags::RUST_OPTION_NONE) {
        return E::Null;
    }
    match named(m) {
        Some(K::Str(s)) => E::Str(s),
        Some(K::Of(e)) => *e,
        None => E::Null,
    }
}

fn scalar(e: &Ev) -> E {
    match e {
        Ev::Null => E::Null,
        Ev::Bool(b) => E::Bool(*b),
        Ev::U8(v) => E::Int(v.to_string()),
        Ev::U16(v) => E::Int(v.to_string()),
        Ev::U32(v) => E::Int(v.to_string()),
        Ev::U64(v) => E::Int(v.to_string()),
        Ev::U128(v) => E::Int(v.to_string()),
        Ev::I8(v) => E::Int(v.to_string()),
        Ev::I16(v) => E::Int(v.to_string()),
        Ev::I32(v) => E::Int(v.to_string()),
        Ev::I64(v) => E::Int(v.to_string()),
        Ev::I128(v) => E::Int(v.to_string()),
        Ev::F32(v) => {
            let f = f32::from_bits(*v);
            if f.is_finite() { E::F32(f) } else { E::Null }
        }
        Ev::F64(v) => {
            let f = f64::from_bits(*v);
            if f.is_finite() { E::F64(f) } else { E::Null }
        }
        _ => unreachable!(),
    }
}

fn wrap(m: &Meta, v: E) -> E {
    match named(m) {
        Some(k) => E::Obj(vec![(k, v)]),
        None => v,
    }
}

/// Text under a tag that says it is a number or already JSON.
fn special(m: &Meta, n: &N) -> Option<E> {
    let t = m.tag.as_ref()?;
    let text = match n {
        N::Text(s) => s,
        // both number tags may be nested
        N::Tagged(m2, n2) if *t == tags::NUMBER || *t == sval_json::tags::JSON_NUMBER => match (&m2.tag, &**n2) {
            (Some(t2), N::Text(s)) if *t2 == tags::NUMBER || *t2 == sval_json::tags::JSON_NUMBER => s,
            _ => return None,
        },
        _ => return None,
    };
    if *t == tags::NUMBER || *t == sval_json::tags::JSON_NUMBER {
        Some(E::Dec(text.clone()))
    } else if *t == sval_json::tags::JSON_VALUE {
        Some(E::Raw(parse(text.as_bytes()).expect("generated JSON is valid")))
    } else if *t == sval_json::tags::JSON_TEXT {
        Some(E::Raw(parse(format!("\"{text}\"").as_bytes()).expect("generated JSON text is valid")))
    } else {
        None
    }
}

pub fn expect(n: &N) -> Result<E, BadKey> {
    Ok(match n {
        N::Void => unreachable!(),
        N::Scalar(e) => scalar(e),
        N::Text(s) => E::Str(s.clone()),
        N::Bin(b) => E::Arr(b.iter().map(|b| E::Int(b.to_string())).collect()),
        N::Seq(v) => E::Arr(v.iter().map(expect).collect::<Result<_, _>>()?),
        N::Map(v) => {
            let mut o = vec![];
            for (k, v) in v {
                o.push((key(k)?, expect(v)?));
            }
            E::Obj(o)
        }
        N::Tag(m) => unit(m),
        N::Tagged(m, v) => match special(m, v) {
            Some(e) => e,
            None => expect(v)?,
        },
        N::Enum(_, v) => variant(v)?,
        N::Rec(_, v) => E::Obj(v.iter().map(|(_, l, v)| Ok((K::Str(l.text.clone()), expect(v)?))).collect::<Result<_, _>>()?),
        N::Tup(_, v) => E::Arr(v.iter().map(|(_, _, v)| expect(v)).collect::<Result<_, _>>()?),
        N::RT(_, v) => E::Obj(v.iter().map(|(_, l, _, v)| Ok((K::Str(l.text.clone()), expect(v)?))).collect::<Result<_, _>>()?),
    })
}

fn variant(n: &N) -> Result<E, BadKey> {
    Ok(match n {
        N::Tag(m) => unit(m),
        N::Tagged(m, v) => wrap(m, match special(m, v) {
            Some(e) => e,
            None => expect(v)?,
        }),
        N::Rec(m, _) | N::Tup(m, _) | N::RT(m, _) => wrap(m, expect(n)?),
        N::Enum(m, v) => wrap(m, variant(v)?),
        _ => unreachable!("checked by the protocol"),
    })
}

fn key(n: &N) -> Result<K, BadKey> {
    match n {
        N::Void => unreachable!(),
        N::Scalar(e) => Ok(K::Of(Box::new(scalar(e)))),
        N::Text(s) => Ok(K::Str(s.clone())),
        N::Tag(m) => Ok(match unit(m) {
            E::Str(s) => K::Str(s),
            e => K::Of(Box::new(e)),
        }),
        N::Tagged(m, v) => match special(m, v) {
            Some(E::Raw(J::Str(s))) => Ok(K::Str(s)),
            Some(e) => Ok(K::Of(Box::new(e))),
            None => key(v),
        },
        N::Enum(_, v) => variant_key(v),
        N::Bin(_) | N::Seq(_) | N::Map(_) | N::Rec(..) | N::Tup(..) | N::RT(..) => Err(BadKey),
    }
}

fn variant_key(n: &N) -> Result<K, BadKey> {
    match n {
        N::Tagged(m, _) | N::Enum(m, _) if named(m).is_some() => Err(BadKey),
        N::Enum(_, v) => variant_key(v),
        n => key(n),
    }
}

/// Strict JSON (RFC 8259).
pub fn parse(b: &[u8]) -> Result<J, String> {
    if std::str::from_utf8(b).is_err() {
        return Err("not UTF-8".into());
    }
    let mut p = P { b, i: 0 };
    let j = p.value()?;
    if p.i != b.len() {
        return p.err("trailing characters");
    }
    Ok(j)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn err<T>(&self, w: &str) -> Result<T, String> {
        Err(format!("{w} at byte {}", self.i))
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.b.get(self.i) {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(j)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        let r = match self.b.get(self.i) {
            None => return self.err("the document ends inside a value"),
            Some(b'n') => self.lit("null", J::Null)?,
            Some(b't') => self.lit("true", J::Bool(true))?,
            Some(b'f') => self.lit("false", J::Bool(false))?,
            Some(b'"') => J::Str(self.string()?),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        v.push(self.value()?);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected , or ]"),
                        }
                    }
                }
                J::Arr(v)
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.b.get(self.i) != Some(&b'"') {
                            return self.err("expected a key");
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.b.get(self.i) != Some(&b':') {
                            return self.err("expected :");
                        }
                        self.i += 1;
                        v.push((k, self.value()?));
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected , or }"),
                        }
                    }
                }
                J::Obj(v)
            }
            Some(b'-' | b'0'..=b'9') => {
                let s = self.i;
                self.number()?;
                J::Num(std::str::from_utf8(&self.b[s..self.i]).unwrap().to_owned())
            }
            Some(_) => return self.err("unexpected character"),
        };
        self.ws();
        Ok(r)
    }
    fn digits(&mut self) -> Result<(), String> {
        let s = self.i;
        while let Some(b'0'..=b'9') = self.b.get(self.i) {
            self.i += 1;
        }
        if s == self.i {
            return self.err("expected a digit");
        }
        Ok(())
    }
    fn number(&mut self) -> Result<(), String> {
        if self.b.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        if self.b.get(self.i) == Some(&b'0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.b.get(self.i) {
            self.i += 1;
            if let Some(b'+' | b'-') = self.b.get(self.i) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(())
    }
    fn hex(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.b.get(self.i) {
                Some(c) => (*c as char).to_digit(16),
                None => None,
            };
            match d {
                Some(d) => v = v * 16 + d,
                None => return self.err("bad \\u escape"),
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut s: Vec<u8> = vec![];
        loop {
            match self.b.get(self.i) {
                None => return self.err("the document ends inside a string"),
                Some(b'"') => {
                    self.i += 1;
                    break;
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = match self.b.get(self.i) {
                        Some(b'"') => '"',
                        Some(b'\\') => '\\',
                        Some(b'/') => '/',
                        Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}',
                        Some(b'n') => '\n',
                        Some(b'r') => '\r',
                        Some(b't') => '\t',
                        Some(b'u') => {
                            self.i += 1;
                            let h = self.hex()?;
                            let c = if (0xD800..0xDC00).contains(&h) {
                                if self.b.get(self.i) != Some(&b'\\') || self.b.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00))
                            } else {
                                char::from_u32(h)
                            };
                            self.i -= 1;
                            match c {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    self.i += 1;
                    let mut t = [0; 4];
                    s.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                }
                Some(c) if *c < 0x20 => return self.err("raw control character in a string"),
                Some(c) => {
                    s.push(*c);
                    self.i += 1;
                }
            }
        }
        Ok(String::from_utf8(s).unwrap())
    }
}

/// A decimal as sign, digits without leading or trailing zeroes, exponent of the last digit.
pub fn decimal(s: &str) -> Option<(bool, String, i128)> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].strip_prefix('+').unwrap_or(&s[i + 1..]).parse::<i128>().ok()?),
        None => (s, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let all = format!("{i}{f}");
    let mut exp = e - f.len() as i128;
    let t = all.trim_start_matches('0');
    let u = t.trim_end_matches('0');
    exp += (t.len() - u.len()) as i128;
    if u.is_empty() {
        return Some((false, String::new(), 0));
    }
    Some((neg, u.to_owned(), exp))
}

fn same_number(e: &E, s: &str) -> bool {
    match e {
        E::Int(i) => s == i,
        E::F32(f) => s.parse::<f32>().map(f32::to_bits) == Ok(f.to_bits()),
        E::F64(f) => s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()),
        E::Dec(d) => decimal(d).is_some() && decimal(d) == decimal(s),
        _ => false,
    }
}

/// NUMBER text that has no JSON number.
fn nonfinite(s: &str) -> bool {
    let s = s.trim_start_matches(['+', '-']).to_ascii_lowercase();
    matches!(s.as_str(), "nan" | "snan" | "inf" | "infinity")
}

fn is_number(s: &str) -> bool {
    matches!(parse(s.as_bytes()), Ok(J::Num(_)))
}

/// First difference, as a path.
pub fn compare(e: &E, j: &J, path: &str) -> Option<String> {
    let bad = || Some(format!("at {path}: expected {e:?} got {j:?}"));
    match (e, j) {
        (E::Null, J::Null) => None,
        (E::Bool(a), J::Bool(b)) if a == b => None,
        (E::Str(a), J::Str(b)) if a == b => None,
        (E::Int(_) | E::F32(_) | E::F64(_) | E::Dec(_), J::Num(s)) if same_number(e, s) => None,
        (E::Dec(d), J::Null) if nonfinite(d) => None,
        (E::Raw(a), b) if a == b => None,
        (E::Arr(a), J::Arr(b)) => {
            if a.len() != b.len() {
                return Some(format!("at {path}: expected {} elements got {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| compare(a, b, &format!("{path}[{i}]")))
        }
        (E::Obj(a), J::Obj(b)) => {
            if a.len() != b.len() {
                return Some(format!("at {path}: expected {} entries got {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, ((k, a), (l, b)))| {
                let same = match k {
                    K::Str(s) => s == l,
                    K::Of(e) => match &**e {
                        E::Null => l == "null",
                        E::Bool(v) => *l == v.to_string(),
                        // there's no say in how a key that's not a number is spelled
                        E::Dec(d) if nonfinite(d) => true,
                        n => is_number(l) && same_number(n, l),
                    },
                };
                if !same {
                    return Some(format!("at {path} key #{i}: expected {k:?} got {l:?}"));
                }
                compare(a, b, &format!("{path}.{l}"))
            })
        }
        _ => bad(),
    }
}
