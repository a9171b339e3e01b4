//! Formatting oracle: the tokens a value must be written as.

use crate::ev::*;
use crate::proto::N;
use sval::tags;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum C {
    Num,
    Atom,
    Ident,
    Punct,
    Ws,
    Text,
}

/// How floats are written: by `stream_to_write`, or by `Display`.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Floats {
    Write,
    Display,
}

pub type Tk = (C, String);

pub struct Out {
    pub toks: Vec<Tk>,
    floats: Floats,
}

impl Out {
    fn put(&mut self, c: C, s: impl AsRef<str>) {
        push(&mut self.toks, c, s.as_ref())
    }
    fn p(&mut self, s: &str) {
        self.put(C::Punct, s)
    }
    fn ws(&mut self) {
        self.put(C::Ws, " ")
    }
}

/// Adjacent tokens of one class are one token.
pub fn push(toks: &mut Vec<Tk>, c: C, s: &str) {
    if s.is_empty() {
        return;
    }
    match toks.last_mut() {
        Some((k, t)) if *k == c => t.push_str(s),
        _ => toks.push((c, s.to_owned())),
    }
}

pub fn text(toks: &[Tk]) -> String {
    toks.iter().map(|t| t.1.as_str()).collect()
}

pub fn expect(n: &N, floats: Floats) -> Vec<Tk> {
    let mut o = Out { toks: vec![], floats };
    value(n, false, &mut o);
    o.toks
}

/// The text of a float on its own, which has to read back as the same float.
fn float<F: sval::Value + std::fmt::Display + Copy>(f: F, floats: Floats) -> String {
    match floats {
        Floats::Display => f.to_string(),
        Floats::Write => {
            let mut s = String::new();
            let _ = sval_fmt::stream_to_write(&mut s, f);
            s
        }
    }
}

fn f32s(f: f32, k: Floats) -> String {
    let s = float(f, k);
    match s.parse::<f32>() {
        Ok(g) if g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan()) => s,
        _ => format!("{f:?}"),
    }
}

fn f64s(f: f64, k: Floats) -> String {
    let s = float(f, k);
    match s.parse::<f64>() {
        Ok(g) if g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan()) => s,
        _ => format!("{f:?}"),
    }
}

fn unit(m: &Meta, o: &mut Out) {
    match &m.label {
        Some(l) => o.put(C::Ident, &l.text),
        None => o.put(C::Atom, "()"),
    }
}

fn value(n: &N, num: bool, o: &mut Out) {
    match n {
        N::Void => unreachable!(),
        N::Scalar(e) => match e {
            Ev::Null => o.put(C::Atom, "()"),
            Ev::Bool(b) => o.put(C::Atom, if *b { "true" } else { "false" }),
            Ev::F32(v) => {
                let s = f32s(f32::from_bits(*v), o.floats);
                o.put(C::Num, s)
            }
            Ev::F64(v) => {
                let s = f64s(f64::from_bits(*v), o.floats);
                o.put(C::Num, s)
            }
            Ev::U8(v) => o.put(C::Num, v.to_string()),
            Ev::U16(v) => o.put(C::Num, v.to_string()),
            Ev::U32(v) => o.put(C::Num, v.to_string()),
            Ev::U64(v) => o.put(C::Num, v.to_string()),
            Ev::U128(v) => o.put(C::Num, v.to_string()),
            Ev::I8(v) => o.put(C::Num, v.to_string()),
            Ev::I16(v) => o.put(C::Num, v.to_string()),
            Ev::I32(v) => o.put(C::Num, v.to_string()),
            Ev::I64(v) => o.put(C::Num, v.to_string()),
            Ev::I128(v) => o.put(C::Num, v.to_string()),
            _ => unreachable!(),
        },
        N::Text(s) if num => o.put(C::Num, s),
        N::Text(s) => {
            let esc: String = s.chars().flat_map(|c| c.escape_debug()).collect();
            o.put(C::Text, format!("\"{esc}\""));
        }
        N::Bin(b) => {
            o.p("[");
            for (i, b) in b.iter().enumerate() {
                if i > 0 {
                    o.p(",");
                    o.ws();
                }
                o.put(C::Num, b.to_string());
            }
            o.p("]");
        }
        N::Seq(v) => {
            o.p("[");
            for (i, v) in v.iter().enumerate() {
                if i > 0 {
                    o.p(",");
                    o.ws();
                }
                value(v, false, o);
            }
            o.p("]");
        }
        N::Map(v) => {
            o.p("{");
            for (i, (k, v)) in v.iter().enumerate() {
                if i > 0 {
                    o.p(",");
                }
                o.ws();
                value(k, false, o);
                o.p(":");
                o.ws();
                value(v, false, o);
            }
            if !v.is_empty() {
                o.ws();
            }
            o.p("}");
        }
        N::Tag(m) => unit(m, o),
        N::Tagged(m, v) => {
            let num = num || m.tag == Some(tags::NUMBER);
            match &m.label {
                Some(l) => {
                    o.put(C::Ident, &l.text);
                    o.p("(");
                    value(v, num, o);
                    o.p(")");
                }
                None => value(v, num, o),
            }
        }
        N::Enum(m, v) => match &**v {
            N::Void => unit(m, o),
            v => value(v, num, o),
        },
        N::Rec(m, v) => record(m, v.iter().map(|(_, l, v)| (l, v)).collect(), o),
        N::RT(m, v) => record(m, v.iter().map(|(_, l, _, v)| (l, v)).collect(), o),
        N::Tup(m, v) => {
            if let Some(l) = &m.label {
                o.put(C::Ident, &l.text);
            }
            o.p("(");
            for (i, (_, _, v)) in v.iter().enumerate() {
                if i > 0 {
                    o.p(",");
                    o.ws();
                }
                value(v, false, o);
            }
            o.p(")");
        }
    }
}

fn record(m: &Meta, v: Vec<(&L, &N)>, o: &mut Out) {
    if let Some(l) = &m.label {
        o.put(C::Ident, &l.text);
        o.ws();
    }
    o.p("{");
    for (i, (l, v)) in v.iter().enumerate() {
        if i > 0 {
            o.p(",");
        }
        o.ws();
        o.put(C::Ident, &l.text);
        o.p(":");
        o.ws();
        value(v, false, o);
    }
    if !v.is_empty() {
        o.ws();
    }
    o.p("}");
}
