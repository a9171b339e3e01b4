//! The simulated recursive consumer: a `sval_nested::Stream` that rebuilds the tree it is given.

use crate::ctx;
use crate::ev::*;
use crate::proto::{self, N};
use crate::tape::mix;
use std::cell::RefCell;
use std::rc::Rc;
use sval::{Index, Label, Tag};
use sval_nested::{default_stream as ds, Error, Result, Stream, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, ValueRef};

pub mod m {
    pub const I8: u32 = 1;
    pub const I16: u32 = 2;
    pub const I32: u32 = 4;
    pub const I128: u32 = 8;
    pub const U8: u32 = 16;
    pub const U16: u32 = 32;
    pub const U32: u32 = 64;
    pub const U64: u32 = 128;
    pub const U128: u32 = 256;
    pub const F32: u32 = 512;
    pub const TEXT: u32 = 1024;
    pub const BIN: u32 = 2048;
    pub const BIN_C: u32 = 4096;
    pub const TAG: u32 = 8192;
    pub const TAGGED: u32 = 16384;
    pub const TAGGED_C: u32 = 32768;
    pub const VALUE: u32 = 65536;
    pub const VALUE_REF: u32 = 1 << 17;
    pub const ALL: u32 = (1 << 18) - 1;
}

#[derive(Default)]
pub struct Cx {
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    pub after: u64,
    pub mask: u32,
    pub seed: u64,
    /// 0: always recurse, 1: mostly, 2: often capture flat
    pub flat: u64,
    pub problem: Option<String>,
    /// text and binary received as borrowed for the whole stream: content then, and where
    pub lent: Vec<(Vec<u8>, usize)>,
}

#[derive(Clone)]
pub struct NRec(pub Rc<RefCell<Cx>>);

impl NRec {
    pub fn new(mask: u32, flat: u64, seed: u64, fail_at: Option<u64>) -> NRec {
        NRec(Rc::new(RefCell::new(Cx { mask, flat, seed, fail_at, ..Default::default() })))
    }
    fn step(&self) -> Result {
        ctx::tick();
        let mut c = self.0.borrow_mut();
        let n = c.calls;
        c.calls += 1;
        if c.failed {
            c.after += 1;
            return Err(Error::invalid_value("already failed"));
        }
        if c.fail_at == Some(n) {
            c.failed = true;
            return Err(Error::invalid_value("injected"));
        }
        Ok(())
    }
    fn has(&self, b: u32) -> bool {
        self.0.borrow().mask & b != 0
    }
    fn pick(&self, n: u64) -> u64 {
        let mut c = self.0.borrow_mut();
        c.seed = mix(c.seed, 77);
        c.seed % n
    }
    fn problem(&self, p: String) {
        self.0.borrow_mut().problem.get_or_insert(p);
    }
    fn lent(&self, b: &[u8]) {
        self.0.borrow_mut().lent.push((b.to_vec(), b.as_ptr() as usize));
    }
    fn scalar(&self, e: Ev) -> Result<N> {
        self.step()?;
        Ok(N::Scalar(e))
    }
    fn flat_child(&self) -> bool {
        let f = self.0.borrow().flat;
        match f {
            0 => false,
            1 => self.pick(4) == 0,
            _ => self.pick(2) == 0,
        }
    }
    fn captured(&self, rec: Rec, r: sval::Result) -> Result<N> {
        r.map_err(|_| Error::invalid_value("the value failed"))?;
        for e in &rec.evs {
            if let Ev::Text(s, P::B(p)) = e {
                self.0.borrow_mut().lent.push((s.as_bytes().to_vec(), *p));
            }
            if let Ev::Bin(s, P::B(p)) = e {
                self.0.borrow_mut().lent.push((s.clone(), *p));
            }
        }
        match proto::parse_void(&rec.evs) {
            Ok(n) => Ok(lower(&n, self.0.borrow().mask)),
            Err(e) => {
                self.problem(format!("a value handed over whole streams badly: {e}: {}", show(&rec.evs)));
                Err(Error::invalid_value("malformed"))
            }
        }
    }
    fn child<'sval, V: ValueRef<'sval>>(&self, v: V) -> Result<N> {
        if self.flat_child() {
            let mut rec = Rec::new(None);
            let r = sval_ref::stream_ref(&mut rec, v);
            return self.captured(rec, r);
        }
        match self.pick(2) {
            0 => sval_nested::stream(self.clone(), v),
            _ => self.clone().value(v),
        }
    }
    fn child_ref<'sval, V: sval::Value + ?Sized>(&self, v: &'sval V) -> Result<N> {
        if self.flat_child() {
            let mut rec = Rec::new(None);
            let r = v.stream(&mut rec);
            return self.captured(rec, r);
        }
        match self.pick(2) {
            0 => sval_nested::stream_ref(self.clone(), v),
            _ => self.clone().value_ref(v),
        }
    }
    fn child_computed<V: sval::Value>(&self, v: V) -> Result<N> {
        if self.flat_child() {
            let mut rec = Rec::new(None);
            let r = match self.pick(2) {
                0 => sval::stream_computed(&mut rec, &v),
                _ => sval::Stream::value_computed(&mut rec, &v),
            };
            return self.captured(rec, r);
        }
        match self.pick(2) {
            0 => sval_nested::stream_computed(self.clone(), v),
            _ => self.clone().value_computed(v),
        }
    }
}

type T = Option<Tag>;
type LL<'a> = Option<Label<'a>>;
type II = Option<Index>;

fn meta(t: T, l: LL, i: II) -> Meta {
    Meta::of(t.as_ref(), l.as_ref(), i.as_ref())
}

macro_rules! int {
    ($($f:ident $t:ty, $ev:ident, $bit:ident;)*) => {$(
        fn $f(self, v: $t) -> Result<N> {
            if self.has(m::$bit) { self.scalar(Ev::$ev(v)) } else { ds::$f(self, v) }
        }
    )*};
}

impl<'sval> Stream<'sval> for NRec {
    type Ok = N;
    type Seq = NSeq;
    type Map = NMap;
    type Tuple = NTup;
    type Record = NRecord;
    type Enum = NEnum;

    fn null(self) -> Result<N> {
        self.scalar(Ev::Null)
    }
    fn bool(self, v: bool) -> Result<N> {
        self.scalar(Ev::Bool(v))
    }
    fn i64(self, v: i64) -> Result<N> {
        self.scalar(Ev::I64(v))
    }
    fn f64(self, v: f64) -> Result<N> {
        self.scalar(Ev::F64(v.to_bits()))
    }
    int! {
        i8 i8, I8, I8; i16 i16, I16, I16; i32 i32, I32, I32; i128 i128, I128, I128;
        u8 u8, U8, U8; u16 u16, U16, U16; u32 u32, U32, U32; u64 u64, U64, U64; u128 u128, U128, U128;
    }
    fn f32(self, v: f32) -> Result<N> {
        if self.has(m::F32) { self.scalar(Ev::F32(v.to_bits())) } else { ds::f32(self, v) }
    }
    fn text(self, text: &'sval str) -> Result<N> {
        if self.has(m::TEXT) {
            self.step()?;
            self.lent(text.as_bytes());
            Ok(N::Text(text.to_owned()))
        } else {
            ds::text(self, text)
        }
    }
    fn text_computed(self, text: &str) -> Result<N> {
        self.step()?;
        Ok(N::Text(text.to_owned()))
    }
    fn binary(self, b: &'sval [u8]) -> Result<N> {
        if self.has(m::BIN) && self.has(m::BIN_C) {
            self.step()?;
            self.lent(b);
            Ok(N::Bin(b.to_owned()))
        } else {
            ds::binary(self, b)
        }
    }
    fn binary_computed(self, b: &[u8]) -> Result<N> {
        if self.has(m::BIN_C) {
            self.step()?;
            Ok(N::Bin(b.to_owned()))
        } else {
            ds::binary_computed(self, b)
        }
    }
    fn tag(self, t: T, l: LL, i: II) -> Result<N> {
        if self.has(m::TAG) {
            self.step()?;
            Ok(N::Tag(meta(t, l, i)))
        } else {
            ds::tag(self, t, l, i)
        }
    }
    fn tagged<V: ValueRef<'sval>>(self, t: T, l: LL, i: II, v: V) -> Result<N> {
        if self.has(m::TAGGED) && self.has(m::TAGGED_C) {
            self.step()?;
            let n = self.child(v)?;
            Ok(N::Tagged(meta(t, l, i), Box::new(n)))
        } else {
            ds::tagged(self, t, l, i, v)
        }
    }
    fn tagged_ref<V: sval::Value + ?Sized>(self, t: T, l: LL, i: II, v: &'sval V) -> Result<N> {
        if self.has(m::VALUE_REF) && self.has(m::TAGGED_C) {
            self.step()?;
            let n = self.child_ref(v)?;
            Ok(N::Tagged(meta(t, l, i), Box::new(n)))
        } else {
            ds::tagged_ref(self, t, l, i, v)
        }
    }
    fn tagged_computed<V: sval::Value>(self, t: T, l: LL, i: II, v: V) -> Result<N> {
        if self.has(m::TAGGED_C) {
            self.step()?;
            let n = self.child_computed(v)?;
            Ok(N::Tagged(meta(t, l, i), Box::new(n)))
        } else {
            ds::tagged_computed(self, t, l, i, v)
        }
    }
    fn seq_begin(self, n: Option<usize>) -> Result<NSeq> {
        self.step()?;
        Ok(NSeq { cx: self, n, v: vec![] })
    }
    fn map_begin(self, n: Option<usize>) -> Result<NMap> {
        self.step()?;
        Ok(NMap { cx: self, n, k: vec![], v: vec![] })
    }
    fn tuple_begin(self, t: T, l: LL, i: II, n: Option<usize>) -> Result<NTup> {
        self.step()?;
        Ok(NTup { cx: self, n, m: meta(t, l, i), v: vec![], of: None })
    }
    fn record_begin(self, t: T, l: LL, i: II, n: Option<usize>) -> Result<NRecord> {
        self.step()?;
        Ok(NRecord { cx: self, n, m: meta(t, l, i), v: vec![], of: None })
    }
    fn enum_begin(self, t: T, l: LL, i: II) -> Result<NEnum> {
        self.step()?;
        Ok(NEnum { cx: self, m: meta(t, l, i) })
    }
}

fn count(cx: &NRec, n: Option<usize>, got: usize, what: &str) {
    if let Some(n) = n {
        if n != got {
            cx.problem(format!("{what} declared {n} but was given {got}"));
        }
    }
}

pub struct NSeq {
    cx: NRec,
    n: Option<usize>,
    v: Vec<N>,
}

impl<'sval> StreamSeq<'sval> for NSeq {
    type Ok = N;
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        if !self.cx.has(m::VALUE) {
            return ds::seq_value(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        self.v.push(n);
        Ok(())
    }
    fn value_ref<V: sval::Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        if !self.cx.has(m::VALUE_REF) {
            return ds::seq_value_ref(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        self.v.push(n);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        self.v.push(n);
        Ok(())
    }
    fn end(self) -> Result<N> {
        self.cx.step()?;
        count(&self.cx, self.n, self.v.len(), "a sequence");
        Ok(N::Seq(self.v))
    }
}

pub struct NMap {
    cx: NRec,
    n: Option<usize>,
    k: Vec<N>,
    v: Vec<N>,
}

impl NMap {
    fn k(&mut self, n: N) -> Result {
        if self.k.len() != self.v.len() {
            self.cx.problem("two map keys in a row".into());
        }
        self.k.push(n);
        Ok(())
    }
    fn v(&mut self, n: N) -> Result {
        if self.k.len() != self.v.len() + 1 {
            self.cx.problem("a map value without a key".into());
        }
        self.v.push(n);
        Ok(())
    }
}

impl<'sval> StreamMap<'sval> for NMap {
    type Ok = N;
    fn key<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        if !self.cx.has(m::VALUE) {
            return ds::map_key(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        self.k(n)
    }
    fn key_ref<V: sval::Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        if !self.cx.has(m::VALUE_REF) {
            return ds::map_key_ref(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        self.k(n)
    }
    fn key_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        self.k(n)
    }
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        if !self.cx.has(m::VALUE) {
            return ds::map_value(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        self.v(n)
    }
    fn value_ref<V: sval::Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        if !self.cx.has(m::VALUE_REF) {
            return ds::map_value_ref(self, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        self.v(n)
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        self.v(n)
    }
    fn end(self) -> Result<N> {
        self.cx.step()?;
        count(&self.cx, self.n, self.v.len(), "a map");
        if self.k.len() != self.v.len() {
            self.cx.problem("a map key without a value".into());
        }
        Ok(N::Map(self.k.into_iter().zip(self.v).collect()))
    }
}

fn wrap(of: Option<Meta>, n: N) -> N {
    match of {
        Some(m) => N::Enum(m, Box::new(n)),
        None => n,
    }
}

pub struct NTup {
    cx: NRec,
    n: Option<usize>,
    m: Meta,
    v: Vec<(Option<Tag>, I, N)>,
    of: Option<Meta>,
}

impl<'sval> StreamTuple<'sval> for NTup {
    type Ok = N;
    fn value<V: ValueRef<'sval>>(&mut self, t: T, i: Index, v: V) -> Result {
        if !self.cx.has(m::VALUE) {
            return ds::tuple_value(self, t, i, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        self.v.push((t, I::of(&i), n));
        Ok(())
    }
    fn value_ref<V: sval::Value + ?Sized>(&mut self, t: T, i: Index, v: &'sval V) -> Result {
        if !self.cx.has(m::VALUE_REF) {
            return ds::tuple_value_ref(self, t, i, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        self.v.push((t, I::of(&i), n));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: T, i: Index, v: V) -> Result {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        self.v.push((t, I::of(&i), n));
        Ok(())
    }
    fn end(self) -> Result<N> {
        self.cx.step()?;
        count(&self.cx, self.n, self.v.len(), "a tuple");
        Ok(wrap(self.of, N::Tup(self.m, self.v)))
    }
}

pub struct NRecord {
    cx: NRec,
    n: Option<usize>,
    m: Meta,
    v: Vec<(Option<Tag>, L, N)>,
    of: Option<Meta>,
}

impl<'sval> StreamRecord<'sval> for NRecord {
    type Ok = N;
    fn value<V: ValueRef<'sval>>(&mut self, t: T, l: Label, v: V) -> Result {
        if !self.cx.has(m::VALUE) {
            return ds::record_value(self, t, l, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        self.v.push((t, L::of(&l), n));
        Ok(())
    }
    fn value_ref<V: sval::Value + ?Sized>(&mut self, t: T, l: Label, v: &'sval V) -> Result {
        if !self.cx.has(m::VALUE_REF) {
            return ds::record_value_ref(self, t, l, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        self.v.push((t, L::of(&l), n));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: T, l: Label, v: V) -> Result {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        self.v.push((t, L::of(&l), n));
        Ok(())
    }
    fn end(self) -> Result<N> {
        self.cx.step()?;
        count(&self.cx, self.n, self.v.len(), "a record");
        Ok(wrap(self.of, N::Rec(self.m, self.v)))
    }
}

pub struct NEnum {
    cx: NRec,
    m: Meta,
}

impl<'sval> StreamEnum<'sval> for NEnum {
    type Ok = N;
    type Tuple = NTup;
    type Record = NRecord;
    type Nested = NEnum;

    fn tag(self, t: T, l: LL, i: II) -> Result<N> {
        self.cx.step()?;
        Ok(N::Enum(self.m, Box::new(N::Tag(meta(t, l, i)))))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: T, l: LL, i: II, v: V) -> Result<N> {
        if !self.cx.has(m::TAGGED) {
            return ds::enum_tagged(self, t, l, i, v);
        }
        self.cx.step()?;
        let n = self.cx.child(v)?;
        Ok(N::Enum(self.m, Box::new(N::Tagged(meta(t, l, i), Box::new(n)))))
    }
    fn tagged_ref<V: sval::Value + ?Sized>(self, t: T, l: LL, i: II, v: &'sval V) -> Result<N> {
        if !self.cx.has(m::VALUE_REF) {
            return ds::enum_tagged_ref(self, t, l, i, v);
        }
        self.cx.step()?;
        let n = self.cx.child_ref(v)?;
        Ok(N::Enum(self.m, Box::new(N::Tagged(meta(t, l, i), Box::new(n)))))
    }
    fn tagged_computed<V: sval::Value>(self, t: T, l: LL, i: II, v: V) -> Result<N> {
        self.cx.step()?;
        let n = self.cx.child_computed(v)?;
        Ok(N::Enum(self.m, Box::new(N::Tagged(meta(t, l, i), Box::new(n)))))
    }
    fn tuple_begin(self, t: T, l: LL, i: II, n: Option<usize>) -> Result<NTup> {
        self.cx.step()?;
        Ok(NTup { cx: self.cx, n, m: meta(t, l, i), v: vec![], of: Some(self.m) })
    }
    fn record_begin(self, t: T, l: LL, i: II, n: Option<usize>) -> Result<NRecord> {
        self.cx.step()?;
        Ok(NRecord { cx: self.cx, n, m: meta(t, l, i), v: vec![], of: Some(self.m) })
    }
    fn nested<F: FnOnce(NEnum) -> Result<N>>(self, t: T, l: LL, i: II, f: F) -> Result<N> {
        self.cx.step()?;
        let n = f(NEnum { cx: self.cx.clone(), m: meta(t, l, i) })?;
        Ok(N::Enum(self.m, Box::new(n)))
    }
    fn empty(self) -> Result<N> {
        self.cx.step()?;
        Ok(N::Enum(self.m, Box::new(N::Void)))
    }
}

/// What a recursive consumer implementing the methods in `mask` must be given for `n`.
pub fn lower(n: &N, mask: u32) -> N {
    let l = |n: &N| lower(n, mask);
    let has = |b: u32| mask & b != 0;
    let number = |s: String| {
        let t = N::Text(s);
        if has(m::TAGGED_C) {
            N::Tagged(Meta::tag(sval::tags::NUMBER), Box::new(t))
        } else {
            t
        }
    };
    match n {
        N::Scalar(e) => {
            let signed = |v: i128, from: u32| -> Ev {
                if from <= 8 && has(m::I8) {
                    Ev::I8(v as i8)
                } else if from <= 16 && has(m::I16) {
                    Ev::I16(v as i16)
                } else if from <= 32 && has(m::I32) {
                    Ev::I32(v as i32)
                } else {
                    Ev::I64(v as i64)
                }
            };
            let unsigned = |v: u128, from: u32| -> N {
                if from <= 8 && has(m::U8) {
                    N::Scalar(Ev::U8(v as u8))
                } else if from <= 16 && has(m::U16) {
                    N::Scalar(Ev::U16(v as u16))
                } else if from <= 32 && has(m::U32) {
                    N::Scalar(Ev::U32(v as u32))
                } else if from <= 64 && has(m::U64) {
                    N::Scalar(Ev::U64(v as u64))
                } else if has(m::U128) {
                    N::Scalar(Ev::U128(v))
                } else if v <= i64::MAX as u128 {
                    N::Scalar(Ev::I64(v as i64))
                } else {
                    number(v.to_string())
                }
            };
            match e {
                Ev::I8(v) => N::Scalar(signed(*v as i128, 8)),
                Ev::I16(v) => N::Scalar(signed(*v as i128, 16)),
                Ev::I32(v) => N::Scalar(signed(*v as i128, 32)),
                Ev::I128(v) => {
                    if has(m::I128) {
                        N::Scalar(Ev::I128(*v))
                    } else if let Ok(v) = i64::try_from(*v) {
                        N::Scalar(Ev::I64(v))
                    } else {
                        number(v.to_string())
                    }
                }
                Ev::U8(v) => unsigned(*v as u128, 8),
                Ev::U16(v) => unsigned(*v as u128, 16),
                Ev::U32(v) => unsigned(*v as u128, 32),
                Ev::U64(v) => unsigned(*v as u128, 64),
                Ev::U128(v) => unsigned(*v, 128),
                Ev::F32(v) if !has(m::F32) => N::Scalar(Ev::F64((f32::from_bits(*v) as f64).to_bits())),
                e => N::Scalar(e.clone()),
            }
        }
        N::Text(s) => N::Text(s.clone()),
        N::Bin(b) if has(m::BIN_C) => N::Bin(b.clone()),
        N::Bin(b) => N::Seq(b.iter().map(|b| l(&N::Scalar(Ev::U8(*b)))).collect()),
        N::Seq(v) => N::Seq(v.iter().map(l).collect()),
        N::Map(v) => N::Map(v.iter().map(|(a, b)| (l(a), l(b))).collect()),
        N::Tag(t) if has(m::TAG) => N::Tag(t.clone()),
        N::Tag(t) => {
            let v = match (&t.tag, &t.label) {
                (Some(sval::tags::RUST_OPTION_NONE), _) | (_, None) => N::Scalar(Ev::Null),
                (_, Some(l)) => N::Text(l.text.clone()),
            };
            if has(m::TAGGED_C) {
                N::Tagged(t.clone(), Box::new(v))
            } else {
                v
            }
        }
        N::Tagged(t, v) if has(m::TAGGED_C) => N::Tagged(t.clone(), Box::new(l(v))),
        N::Tagged(_, v) => l(v),
        N::Enum(t, v) => N::Enum(t.clone(), Box::new(variant(v, mask))),
        N::Void => N::Void,
        N::Rec(t, v) => N::Rec(t.clone(), v.iter().map(|(a, b, c)| (a.clone(), b.clone(), l(c))).collect()),
        N::Tup(t, v) => N::Tup(t.clone(), v.iter().map(|(a, b, c)| (a.clone(), b.clone(), l(c))).collect()),
        N::RT(t, v) => N::Rec(t.clone(), v.iter().map(|(a, b, _, c)| (a.clone(), b.clone(), l(c))).collect()),
    }
}

fn variant(n: &N, mask: u32) -> N {
    match n {
        N::Tag(t) => N::Tag(t.clone()),
        N::Tagged(t, v) => N::Tagged(t.clone(), Box::new(lower(v, mask))),
        n => lower(n, mask),
    }
}

/// First difference between two trees.
pub fn tree_diff(want: &N, got: &N) -> Option<String> {
    if want == got {
        return None;
    }
    Some(format!("expected {want:?} got {got:?}"))
}
