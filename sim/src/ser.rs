//! The serde side: a scripted `Serialize` with faults, a recording `Serializer` with faults, and their models.

use crate::ctx;
use crate::ev::*;
use crate::gen::Gen;
use crate::real::{self, Frags};
use crate::script::{Poison, Stop, X};
use serde::ser::{self, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub type Name = &'static str;

/// A serde value: what a `Serialize` does, and what a `Serializer` was told.
#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    /// `collect_str`
    Collect(Vec<String>),
    Bytes(Vec<u8>),
    None,
    Some(Box<SV>),
    Unit,
    UnitStruct(Name),
    UnitVariant(Name, u32, Name),
    NewtypeStruct(Name, Box<SV>),
    NewtypeVariant(Name, u32, Name, Box<SV>),
    Seq(Option<usize>, Vec<SV>),
    Tuple(usize, Vec<SV>),
    TupleStruct(Name, usize, Vec<SV>),
    TupleVariant(Name, u32, Name, usize, Vec<SV>),
    Map(Option<usize>, Vec<(SV, SV)>),
    Struct(Name, usize, Vec<(Name, SV)>),
    StructVariant(Name, u32, Name, usize, Vec<(Name, SV)>),
}

fn step<E: ser::Error>() -> Result<(), E> {
    if ctx::pstep_fails() {
        Err(E::custom("injected"))
    } else {
        Ok(())
    }
}

impl Serialize for SV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        step()?;
        let ok = match self {
            SV::Bool(v) => s.serialize_bool(*v),
            SV::I8(v) => s.serialize_i8(*v),
            SV::I16(v) => s.serialize_i16(*v),
            SV::I32(v) => s.serialize_i32(*v),
            SV::I64(v) => s.serialize_i64(*v),
            SV::I128(v) => s.serialize_i128(*v),
            SV::U8(v) => s.serialize_u8(*v),
            SV::U16(v) => s.serialize_u16(*v),
            SV::U32(v) => s.serialize_u32(*v),
            SV::U64(v) => s.serialize_u64(*v),
            SV::U128(v) => s.serialize_u128(*v),
            SV::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            SV::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            SV::Char(v) => s.serialize_char(*v),
            SV::Str(v) => ctx::lend_str(v, |v| s.serialize_str(v)),
            SV::Collect(v) => s.collect_str(&Frags(v.clone())),
            SV::Bytes(v) => ctx::lend_bytes(v, |v| s.serialize_bytes(v)),
            SV::None => s.serialize_none(),
            SV::Some(v) => s.serialize_some(&**v),
            SV::Unit => s.serialize_unit(),
            SV::UnitStruct(n) => s.serialize_unit_struct(n),
            SV::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            SV::NewtypeStruct(n, v) => s.serialize_newtype_struct(n, &**v),
            SV::NewtypeVariant(n, i, a, v) => s.serialize_newtype_variant(n, *i, a, &**v),
            SV::Seq(n, v) => {
                use ser::SerializeSeq;
                let mut s = s.serialize_seq(*n)?;
                for v in v {
                    step()?;
                    s.serialize_element(v)?;
                }
                step()?;
                s.end()
            }
            SV::Tuple(n, v) => {
                use ser::SerializeTuple;
                let mut s = s.serialize_tuple(*n)?;
                for v in v {
                    step()?;
                    s.serialize_element(v)?;
                }
                step()?;
                s.end()
            }
            SV::TupleStruct(a, n, v) => {
                use ser::SerializeTupleStruct;
                let mut s = s.serialize_tuple_struct(a, *n)?;
                for v in v {
                    step()?;
                    s.serialize_field(v)?;
                }
                step()?;
                s.end()
            }
            SV::TupleVariant(a, i, b, n, v) => {
                use ser::SerializeTupleVariant;
                let mut s = s.serialize_tuple_variant(a, *i, b, *n)?;
                for v in v {
                    step()?;
                    s.serialize_field(v)?;
                }
                step()?;
                s.end()
            }
            SV::Map(n, v) => {
                use ser::SerializeMap;
                let mut s = s.serialize_map(*n)?;
                for (i, (k, v)) in v.iter().enumerate() {
                    step()?;
                    if i % 2 == 0 {
                        s.serialize_entry(k, v)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(v)?;
                    }
                }
                step()?;
                s.end()
            }
            SV::Struct(a, n, v) => {
                use ser::SerializeStruct;
                let mut s = s.serialize_struct(a, *n)?;
                for (k, v) in v {
                    step()?;
                    s.serialize_field(k, v)?;
                    s.skip_field("skipped")?;
                }
                step()?;
                s.end()
            }
            SV::StructVariant(a, i, b, n, v) => {
                use ser::SerializeStructVariant;
                let mut s = s.serialize_struct_variant(a, *i, b, *n)?;
                for (k, v) in v {
                    step()?;
                    s.serialize_field(k, v)?;
                    s.skip_field("skipped")?;
                }
                step()?;
                s.end()
            }
        }?;
        step()?;
        Ok(ok)
    }
}

impl Poison for SV {
    fn poison(&mut self) {
        match self {
            SV::Str(s) => ctx::poison_str(s),
            SV::Collect(v) => v.iter_mut().for_each(ctx::poison_str),
            SV::Bytes(b) => ctx::poison_bytes(b),
            SV::Some(v) | SV::NewtypeStruct(_, v) | SV::NewtypeVariant(_, _, _, v) => v.poison(),
            SV::Seq(_, v) | SV::Tuple(_, v) | SV::TupleStruct(_, _, v) | SV::TupleVariant(_, _, _, _, v) => {
                v.iter_mut().for_each(|v| v.poison())
            }
            SV::Map(_, v) => v.iter_mut().for_each(|(k, v)| {
                k.poison();
                v.poison()
            }),
            SV::Struct(_, _, v) | SV::StructVariant(_, _, _, _, v) => v.iter_mut().for_each(|(_, v)| v.poison()),
            _ => {}
        }
    }
}

fn named(n: Name) -> Meta {
    Meta { tag: None, label: Some(L::stat(n)), index: None }
}

fn variant(n: Name, i: u32) -> Meta {
    Meta { tag: None, label: Some(L::stat(n)), index: Some(I { val: i as i128, tag: None }) }
}

impl SV {
    /// The sval calls a consumer must see for `ToValue(self)`, given everything is computed.
    pub fn expand(&self, x: &mut X) -> Result<(), Stop> {
        let saved = x.computed;
        x.computed = true;
        let r = self.expand_inner(x);
        x.computed = saved;
        r
    }
    fn expand_inner(&self, x: &mut X) -> Result<(), Stop> {
        x.step()?;
        let seq = |x: &mut X, v: &Vec<SV>| -> Result<(), Stop> {
            for (i, v) in v.iter().enumerate() {
                x.step()?;
                let i = I { val: i as i128, tag: None };
                x.push(Ev::TupVB(None, i.clone()));
                v.expand_inner(x)?;
                x.push(Ev::TupVE(None, i));
            }
            x.step()
        };
        let fields = |x: &mut X, v: &Vec<(Name, SV)>| -> Result<(), Stop> {
            for (k, v) in v {
                x.step()?;
                x.push(Ev::RecVB(None, L::stat(k)));
                v.expand_inner(x)?;
                x.push(Ev::RecVE(None, L::stat(k)));
            }
            x.step()
        };
        match self {
            SV::Bool(v) => x.push(Ev::Bool(*v)),
            SV::I8(v) => x.push(Ev::I8(*v)),
            SV::I16(v) => x.push(Ev::I16(*v)),
            SV::I32(v) => x.push(Ev::I32(*v)),
            SV::I64(v) => x.push(Ev::I64(*v)),
            SV::I128(v) => x.push(Ev::I128(*v)),
            SV::U8(v) => x.push(Ev::U8(*v)),
            SV::U16(v) => x.push(Ev::U16(*v)),
            SV::U32(v) => x.push(Ev::U32(*v)),
            SV::U64(v) => x.push(Ev::U64(*v)),
            SV::U128(v) => x.push(Ev::U128(*v)),
            SV::F32(v) => x.push(Ev::F32(*v)),
            SV::F64(v) => x.push(Ev::F64(*v)),
            SV::Char(c) => {
                x.push(Ev::TextBegin(Some(c.len_utf8())));
                x.push(Ev::Text(c.to_string(), P::C));
                x.push(Ev::TextEnd);
            }
            SV::Str(s) => {
                x.push(Ev::TextBegin(Some(s.len())));
                x.push(Ev::Text(s.clone(), P::C));
                x.push(Ev::TextEnd);
            }
            SV::Collect(v) => {
                x.push(Ev::TextBegin(None));
                for s in v {
                    x.step()?;
                    x.push(Ev::Text(s.clone(), P::C));
                }
                x.push(Ev::TextEnd);
            }
            SV::Bytes(b) => {
                x.push(Ev::BinBegin(Some(b.len())));
                x.push(Ev::Bin(b.clone(), P::C));
                x.push(Ev::BinEnd);
            }
            SV::None => x.push(Ev::Tag(real::none())),
            SV::Some(v) => {
                x.push(Ev::TaggedBegin(real::some()));
                v.expand_inner(x)?;
                x.push(Ev::TaggedEnd(real::some()));
            }
            SV::Unit => x.push(Ev::Tag(Meta::tag(sval::tags::RUST_UNIT))),
            SV::UnitStruct(n) => x.push(Ev::Tag(named(n))),
            SV::UnitVariant(n, i, v) => {
                x.push(Ev::EnumBegin(named(n)));
                x.push(Ev::Tag(variant(v, *i)));
                x.push(Ev::EnumEnd(named(n)));
            }
            SV::NewtypeStruct(n, v) => {
                x.push(Ev::TaggedBegin(named(n)));
                v.expand_inner(x)?;
                x.push(Ev::TaggedEnd(named(n)));
            }
            SV::NewtypeVariant(n, i, a, v) => {
                x.push(Ev::EnumBegin(named(n)));
                x.push(Ev::TaggedBegin(variant(a, *i)));
                v.expand_inner(x)?;
                x.push(Ev::TaggedEnd(variant(a, *i)));
                x.push(Ev::EnumEnd(named(n)));
            }
            SV::Seq(n, v) => {
                x.push(Ev::SeqBegin(*n));
                for v in v {
                    x.step()?;
                    x.push(Ev::SeqVB);
                    v.expand_inner(x)?;
                    x.push(Ev::SeqVE);
                }
                x.step()?;
                x.push(Ev::SeqEnd);
            }
            SV::Tuple(n, v) => {
                x.push(Ev::TupBegin(Meta::default(), Some(*n)));
                seq(x, v)?;
                x.push(Ev::TupEnd(Meta::default()));
            }
            SV::TupleStruct(a, n, v) => {
                x.push(Ev::TupBegin(named(a), Some(*n)));
                seq(x, v)?;
                x.push(Ev::TupEnd(named(a)));
            }
            SV::TupleVariant(a, i, b, n, v) => {
                x.push(Ev::EnumBegin(named(a)));
                x.push(Ev::TupBegin(variant(b, *i), Some(*n)));
                seq(x, v)?;
                x.push(Ev::TupEnd(variant(b, *i)));
                x.push(Ev::EnumEnd(named(a)));
            }
            SV::Map(n, v) => {
                x.push(Ev::MapBegin(*n));
                for (k, v) in v {
                    x.step()?;
                    x.push(Ev::MapKB);
                    k.expand_inner(x)?;
                    x.push(Ev::MapKE);
                    x.push(Ev::MapVB);
                    v.expand_inner(x)?;
                    x.push(Ev::MapVE);
                }
                x.step()?;
                x.push(Ev::MapEnd);
            }
            SV::Struct(a, n, v) => {
                x.push(Ev::RecBegin(named(a), Some(*n)));
                fields(x, v)?;
                x.push(Ev::RecEnd(named(a)));
            }
            SV::StructVariant(a, i, b, n, v) => {
                x.push(Ev::EnumBegin(named(a)));
                x.push(Ev::RecBegin(variant(b, *i), Some(*n)));
                fields(x, v)?;
                x.push(Ev::RecEnd(variant(b, *i)));
                x.push(Ev::EnumEnd(named(a)));
            }
        }
        x.step()
    }
    pub fn events_until(&self, fail_at: Option<u64>) -> (Vec<Ev>, u64) {
        let mut x = X { out: vec![], computed: true, step: 0, fail_at: fail_at.unwrap_or(u64::MAX) };
        let _ = self.expand(&mut x);
        (x.out, x.step)
    }
    /// What the recording serializer builds for it; text is text however it was given.
    pub fn plain(&self) -> SV {
        let p = |v: &Box<SV>| Box::new(v.plain());
        let ps = |v: &Vec<SV>| v.iter().map(|v| v.plain()).collect::<Vec<_>>();
        let pf = |v: &Vec<(Name, SV)>| v.iter().map(|(k, v)| (*k, v.plain())).collect::<Vec<_>>();
        match self {
            SV::Char(c) => SV::Str(c.to_string()),
            SV::Collect(v) => SV::Str(v.concat()),
            SV::Some(v) => SV::Some(p(v)),
            SV::NewtypeStruct(n, v) => SV::NewtypeStruct(n, p(v)),
            SV::NewtypeVariant(n, i, a, v) => SV::NewtypeVariant(n, *i, a, p(v)),
            SV::Seq(n, v) => SV::Seq(*n, ps(v)),
            SV::Tuple(n, v) => SV::Tuple(*n, ps(v)),
            SV::TupleStruct(a, n, v) => SV::TupleStruct(a, *n, ps(v)),
            SV::TupleVariant(a, i, b, n, v) => SV::TupleVariant(a, *i, b, *n, ps(v)),
            SV::Map(n, v) => SV::Map(*n, v.iter().map(|(k, v)| (k.plain(), v.plain())).collect()),
            SV::Struct(a, n, v) => SV::Struct(a, *n, pf(v)),
            SV::StructVariant(a, i, b, n, v) => SV::StructVariant(a, *i, b, *n, pf(v)),
            v => v.clone(),
        }
    }
}

static NAMES: [Name; 8] = ["a", "b", "Name", "field_0", "", "with \"quote\"", "ünï", "Some"];

pub fn gen(g: &mut Gen, depth: usize) -> SV {
    let leaf = depth == 0;
    let d = depth.saturating_sub(1);
    let name = |g: &mut Gen| NAMES[g.t.draw(NAMES.len())];
    let idx = |g: &mut Gen| [0, 1, 7, u32::MAX][g.t.draw(4)];
    let many = |g: &mut Gen| {
        let mut v = vec![];
        while g.more(v.len()) {
            g.spend();
            v.push(gen(g, d));
        }
        v
    };
    let fields = |g: &mut Gen| {
        let mut v = vec![];
        while g.more(v.len()) {
            g.spend();
            let n = NAMES[g.t.draw(NAMES.len())];
            v.push((n, gen(g, d)));
        }
        v
    };
    match g.t.draw(if leaf { 21 } else { 31 }) {
        0 => SV::Unit,
        1 => SV::Bool(g.t.draw(2) == 1),
        2 => SV::I8(g.int() as i8),
        3 => SV::I16(g.int() as i16),
        4 => SV::I32(g.int() as i32),
        5 => SV::I64(g.int() as i64),
        6 => SV::I128(g.int()),
        7 => SV::U8(g.int() as u8),
        8 => SV::U16(g.int() as u16),
        9 => SV::U32(g.int() as u32),
        10 => SV::U64(g.int() as u64),
        11 => SV::U128(g.int() as u128),
        12 => SV::F32(g.f32().to_bits()),
        13 => SV::F64(g.f64().to_bits()),
        14 => SV::Char(['a', '"', 'é', '日', '😀', '\0'][g.t.draw(6)]),
        15 => SV::Str(g.text()),
        16 => {
            let s = g.text();
            SV::Collect(g.split(&s).into_iter().map(|(s, _)| s).collect())
        }
        17 if g.c.bin => SV::Bytes(g.bytes()),
        18 => SV::None,
        19 => SV::UnitStruct(name(g)),
        20 => SV::UnitVariant(name(g), idx(g), name(g)),
        21 => SV::Some(Box::new(gen(g, d))),
        22 => SV::NewtypeStruct(name(g), Box::new(gen(g, d))),
        23 => SV::NewtypeVariant(name(g), idx(g), name(g), Box::new(gen(g, d))),
        24 => {
            let v = many(g);
            SV::Seq(g.size(v.len()), v)
        }
        25 => {
            let v = many(g);
            SV::Tuple(v.len(), v)
        }
        26 => {
            let v = many(g);
            SV::TupleStruct(name(g), v.len(), v)
        }
        27 => {
            let v = many(g);
            SV::TupleVariant(name(g), idx(g), name(g), v.len(), v)
        }
        28 => {
            let mut v = vec![];
            while g.more(v.len()) {
                g.spend();
                let k = if g.c.keys == crate::gen::Keys::Any { gen(g, d.min(1)) } else { SV::Str(g.text()) };
                v.push((k, gen(g, d)));
            }
            SV::Map(g.size(v.len()), v)
        }
        29 => {
            let v = fields(g);
            SV::Struct(name(g), v.len(), v)
        }
        30 => {
            let v = fields(g);
            SV::StructVariant(name(g), idx(g), name(g), v.len(), v)
        }
        _ => SV::Str(g.text()),
    }
}

// ---------------------------------------------------------------- recording serializer

#[derive(Default)]
pub struct RCx {
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    pub after: u64,
    pub log: Vec<&'static str>,
    pub problem: Option<String>,
}

#[derive(Clone)]
pub struct R(pub Rc<RefCell<RCx>>);

#[derive(Debug)]
pub struct E(pub String);

impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}

impl R {
    pub fn new(fail_at: Option<u64>) -> R {
        R(Rc::new(RefCell::new(RCx { fail_at, ..Default::default() })))
    }
    fn step(&self, what: &'static str) -> Result<(), E> {
        ctx::tick();
        let mut c = self.0.borrow_mut();
        let n = c.calls;
        c.calls += 1;
        if c.failed {
            c.after += 1;
            return Err(E("already failed".into()));
        }
        if c.fail_at == Some(n) {
            c.failed = true;
            return Err(E("injected".into()));
        }
        c.log.push(what);
        Ok(())
    }
    fn one(self, what: &'static str, v: SV) -> Result<SV, E> {
        self.step(what)?;
        Ok(v)
    }
    fn count(&self, n: Option<usize>, got: usize, what: &str) {
        if n.map_or(false, |n| n != got) {
            self.0.borrow_mut().problem.get_or_insert(format!("{what} declared {n:?} but was given {got}"));
        }
    }
}

pub struct Many {
    r: R,
    n: Option<usize>,
    head: Head,
    v: Vec<SV>,
    k: Vec<SV>,
    f: Vec<(Name, SV)>,
}

enum Head {
    Seq,
    Tuple,
    TupleStruct(Name),
    TupleVariant(Name, u32, Name),
    Map,
    Struct(Name),
    StructVariant(Name, u32, Name),
}

impl R {
    fn many(self, what: &'static str, n: Option<usize>, head: Head) -> Result<Many, E> {
        self.step(what)?;
        Ok(Many { r: self, n, head, v: vec![], k: vec![], f: vec![] })
    }
}

impl Many {
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.r.step("item")?;
        let v = v.serialize(self.r.clone())?;
        self.v.push(v);
        Ok(())
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: Name, v: &T) -> Result<(), E> {
        self.r.step("field")?;
        let v = v.serialize(self.r.clone())?;
        self.f.push((k, v));
        Ok(())
    }
    fn finish(self) -> Result<SV, E> {
        self.r.step("end")?;
        let Many { r, n, head, v, k, f } = self;
        let l = n.unwrap_or(0);
        Ok(match head {
            Head::Seq => {
                r.count(n, v.len(), "a sequence");
                SV::Seq(n, v)
            }
            Head::Tuple => {
                r.count(n, v.len(), "a tuple");
                SV::Tuple(l, v)
            }
            Head::TupleStruct(a) => {
                r.count(n, v.len(), "a tuple struct");
                SV::TupleStruct(a, l, v)
            }
            Head::TupleVariant(a, i, b) => {
                r.count(n, v.len(), "a tuple variant");
                SV::TupleVariant(a, i, b, l, v)
            }
            Head::Map => {
                r.count(n, v.len(), "a map");
                if k.len() != v.len() {
                    r.0.borrow_mut().problem.get_or_insert("map keys and values do not pair up".into());
                }
                SV::Map(n, k.into_iter().zip(v).collect())
            }
            Head::Struct(a) => {
                r.count(n, f.len(), "a struct");
                SV::Struct(a, l, f)
            }
            Head::StructVariant(a, i, b) => {
                r.count(n, f.len(), "a struct variant");
                SV::StructVariant(a, i, b, l, f)
            }
        })
    }
}

impl Serializer for R {
    type Ok = SV;
    type Error = E;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;

    fn serialize_bool(self, v: bool) -> Result<SV, E> { self.one("bool", SV::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<SV, E> { self.one("i8", SV::I8(v)) }
    fn serialize_i16(self, v: i16) -> Result<SV, E> { self.one("i16", SV::I16(v)) }
    fn serialize_i32(self, v: i32) -> Result<SV, E> { self.one("i32", SV::I32(v)) }
    fn serialize_i64(self, v: i64) -> Result<SV, E> { self.one("i64", SV::I64(v)) }
    fn serialize_i128(self, v: i128) -> Result<SV, E> { self.one("i128", SV::I128(v)) }
    fn serialize_u8(self, v: u8) -> Result<SV, E> { self.one("u8", SV::U8(v)) }
    fn serialize_u16(self, v: u16) -> Result<SV, E> { self.one("u16", SV::U16(v)) }
    fn serialize_u32(self, v: u32) -> Result<SV, E> { self.one("u32", SV::U32(v)) }
    fn serialize_u64(self, v: u64) -> Result<SV, E> { self.one("u64", SV::U64(v)) }
    fn serialize_u128(self, v: u128) -> Result<SV, E> { self.one("u128", SV::U128(v)) }
    fn serialize_f32(self, v: f32) -> Result<SV, E> { self.one("f32", SV::F32(v.to_bits())) }
    fn serialize_f64(self, v: f64) -> Result<SV, E> { self.one("f64", SV::F64(v.to_bits())) }
    fn serialize_char(self, v: char) -> Result<SV, E> { self.one("char", SV::Char(v)) }
    fn serialize_str(self, v: &str) -> Result<SV, E> { self.one("str", SV::Str(v.to_owned())) }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<SV, E> {
        use fmt::Write;
        let mut s = String::new();
        write!(s, "{v}").map_err(|_| E("the Display failed".into()))?;
        self.one("str", SV::Str(s))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<SV, E> { self.one("bytes", SV::Bytes(v.to_owned())) }
    fn serialize_none(self) -> Result<SV, E> { self.one("none", SV::None) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<SV, E> {
        self.step("some")?;
        Ok(SV::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<SV, E> { self.one("unit", SV::Unit) }
    fn serialize_unit_struct(self, n: Name) -> Result<SV, E> { self.one("unit struct", SV::UnitStruct(n)) }
    fn serialize_unit_variant(self, n: Name, i: u32, v: Name) -> Result<SV, E> {
        self.one("unit variant", SV::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: Name, v: &T) -> Result<SV, E> {
        self.step("newtype struct")?;
        Ok(SV::NewtypeStruct(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: Name, i: u32, a: Name, v: &T) -> Result<SV, E> {
        self.step("newtype variant")?;
        Ok(SV::NewtypeVariant(n, i, a, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Many, E> { self.many("seq", n, Head::Seq) }
    fn serialize_tuple(self, n: usize) -> Result<Many, E> { self.many("tuple", Some(n), Head::Tuple) }
    fn serialize_tuple_struct(self, a: Name, n: usize) -> Result<Many, E> {
        self.many("tuple struct", Some(n), Head::TupleStruct(a))
    }
    fn serialize_tuple_variant(self, a: Name, i: u32, b: Name, n: usize) -> Result<Many, E> {
        self.many("tuple variant", Some(n), Head::TupleVariant(a, i, b))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Many, E> { self.many("map", n, Head::Map) }
    fn serialize_struct(self, a: Name, n: usize) -> Result<Many, E> { self.many("struct", Some(n), Head::Struct(a)) }
    fn serialize_struct_variant(self, a: Name, i: u32, b: Name, n: usize) -> Result<Many, E> {
        self.many("struct variant", Some(n), Head::StructVariant(a, i, b))
    }
}

impl ser::SerializeSeq for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.item(v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeTuple for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.item(v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeTupleStruct for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.item(v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeTupleVariant for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.item(v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeMap for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.r.step("key")?;
        if self.k.len() != self.v.len() {
            self.r.0.borrow_mut().problem.get_or_insert("two map keys in a row".into());
        }
        let k = k.serialize(self.r.clone())?;
        self.k.push(k);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        if self.k.len() != self.v.len() + 1 {
            self.r.0.borrow_mut().problem.get_or_insert("a map value without a key".into());
        }
        self.item(v)
    }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeStruct for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: Name, v: &T) -> Result<(), E> { self.field(k, v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}
impl ser::SerializeStructVariant for Many {
    type Ok = SV;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: Name, v: &T) -> Result<(), E> { self.field(k, v) }
    fn end(self) -> Result<SV, E> { self.finish() }
}

// ---------------------------------------------------------------- sval events as serde values

/// Why a value has no serde equivalent.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Refuse(pub &'static str);

struct W<'a> {
    e: &'a [Ev],
    i: usize,
}

fn stat(l: &Option<L>) -> Result<Name, Refuse> {
    l.as_ref().and_then(|l| l.stat).ok_or(Refuse("label"))
}

fn index(i: &Option<I>) -> Result<u32, Refuse> {
    i.as_ref().and_then(|i| u32::try_from(i.val).ok()).ok_or(Refuse("index"))
}

impl<'a> W<'a> {
    fn next(&mut self) -> &'a Ev {
        self.i += 1;
        &self.e[self.i - 1]
    }
    fn text(&mut self) -> String {
        let mut s = String::new();
        while let Ev::Text(f, _) = self.next() {
            s.push_str(f);
        }
        s
    }
    fn items(&mut self) -> Result<Vec<SV>, Refuse> {
        let mut v = vec![];
        while let Ev::SeqVB | Ev::TupVB(..) | Ev::RecVB(..) | Ev::RTVB(..) = self.next() {
            v.push(self.value()?);
            self.next();
        }
        Ok(v)
    }
    fn fields(&mut self) -> Result<Vec<(Name, SV)>, Refuse> {
        let mut v = vec![];
        while let Ev::RecVB(_, l) | Ev::RTVB(_, l, _) = self.next() {
            let n = l.stat.ok_or(Refuse("field label"))?;
            v.push((n, self.value()?));
            self.next();
        }
        Ok(v)
    }
    fn value(&mut self) -> Result<SV, Refuse> {
        Ok(match self.next() {
            Ev::Null => SV::None,
            Ev::Bool(v) => SV::Bool(*v),
            Ev::I8(v) => SV::I8(*v),
            Ev::I16(v) => SV::I16(*v),
            Ev::I32(v) => SV::I32(*v),
            Ev::I64(v) => SV::I64(*v),
            Ev::I128(v) => SV::I128(*v),
            Ev::U8(v) => SV::U8(*v),
            Ev::U16(v) => SV::U16(*v),
            Ev::U32(v) => SV::U32(*v),
            Ev::U64(v) => SV::U64(*v),
            Ev::U128(v) => SV::U128(*v),
            Ev::F32(v) => SV::F32(*v),
            Ev::F64(v) => SV::F64(*v),
            Ev::TextBegin(_) => SV::Str(self.text()),
            Ev::BinBegin(_) => {
                let mut s = vec![];
                while let Ev::Bin(f, _) = self.next() {
                    s.extend_from_slice(f);
                }
                SV::Bytes(s)
            }
            Ev::SeqBegin(n) => SV::Seq(*n, self.items()?),
            Ev::MapBegin(n) => {
                let mut v = vec![];
                while let Ev::MapKB = self.next() {
                    let k = self.value()?;
                    self.next();
                    self.next();
                    v.push((k, self.value()?));
                    self.next();
                }
                SV::Map(*n, v)
            }
            Ev::Tag(m) => match m.tag {
                Some(sval::tags::RUST_OPTION_NONE) => SV::None,
                Some(sval::tags::RUST_UNIT) => SV::Unit,
                _ => SV::UnitStruct(stat(&m.label)?),
            },
            Ev::TaggedBegin(m) => {
                let v = if let Some(sval::tags::RUST_OPTION_SOME) = m.tag {
                    SV::Some(Box::new(self.value()?))
                } else {
                    let n = stat(&m.label)?;
                    SV::NewtypeStruct(n, Box::new(self.value()?))
                };
                self.next();
                v
            }
            Ev::TupBegin(m, n) => {
                let n = n.ok_or(Refuse("len"))?;
                match &m.label {
                    Some(l) => SV::TupleStruct(l.stat.ok_or(Refuse("label"))?, n, self.items()?),
                    None => SV::Tuple(n, self.items()?),
                }
            }
            Ev::RecBegin(m, n) | Ev::RTBegin(m, n) => {
                let n = n.ok_or(Refuse("len"))?;
                match &m.label {
                    Some(l) => SV::Struct(l.stat.ok_or(Refuse("label"))?, n, self.fields()?),
                    None => SV::Tuple(n, self.items()?),
                }
            }
            Ev::EnumBegin(m) => {
                let a = stat(&m.label)?;
                let v = match self.next() {
                    Ev::Tag(m) => SV::UnitVariant(a, index(&m.index)?, stat(&m.label)?),
                    Ev::TaggedBegin(m) => {
                        let (b, i) = (stat(&m.label)?, index(&m.index)?);
                        let v = self.value()?;
                        self.next();
                        SV::NewtypeVariant(a, i, b, Box::new(v))
                    }
                    Ev::TupBegin(m, n) => {
                        let (b, i, n) = (stat(&m.label)?, index(&m.index)?, n.ok_or(Refuse("len"))?);
                        SV::TupleVariant(a, i, b, n, self.items()?)
                    }
                    Ev::RecBegin(m, n) | Ev::RTBegin(m, n) => {
                        let (b, i, n) = (stat(&m.label)?, index(&m.index)?, n.ok_or(Refuse("len"))?);
                        SV::StructVariant(a, i, b, n, self.fields()?)
                    }
                    Ev::EnumEnd(_) => return Ok(SV::UnitStruct(a)),
                    _ => return Err(Refuse("nested enum")),
                };
                self.next();
                v
            }
            e => unreachable!("{e:?}"),
        })
    }
}

/// The serde value equivalent to a well-formed event list.
pub fn of_events(evs: &[Ev]) -> Result<SV, Refuse> {
    let evs: Vec<Ev> = evs.iter().filter(|e| !matches!(e, Ev::Hint(_))).cloned().collect();
    W { e: &evs, i: 0 }.value()
}
