//! Events: one per `sval::Stream` call, and the recording consumer.

use crate::ctx;
use sval::{Index, Label, Stream, Tag};
use std::fmt;

#[derive(Clone, PartialEq)]
pub struct L {
    pub text: String,
    pub stat: Option<&'static str>,
    pub tag: Option<Tag>,
}

impl fmt::Debug for L {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.text)?;
        if self.stat.is_none() {
            write!(f, "~")?;
        }
        if let Some(t) = &self.tag {
            write!(f, "#{:?}", t)?;
        }
        Ok(())
    }
}

impl L {
    pub fn stat(s: &'static str) -> L {
        L { text: s.to_owned(), stat: Some(s), tag: None }
    }
    pub fn ident(s: &'static str) -> L {
        L { text: s.to_owned(), stat: Some(s), tag: Some(sval::tags::VALUE_IDENT) }
    }
    pub fn of(l: &Label) -> L {
        L { text: l.as_str().to_owned(), stat: l.as_static_str(), tag: l.tag().cloned() }
    }
    pub fn lend<R>(&self, f: impl FnOnce(&Label) -> R) -> R {
        match self.stat {
            Some(s) => f(&with_tag_l(Label::new(s), &self.tag)),
            None => ctx::lend_str(&self.text, |s| f(&with_tag_l(Label::new_computed(s), &self.tag))),
        }
    }
}

fn with_tag_l<'a>(l: Label<'a>, t: &Option<Tag>) -> Label<'a> {
    match t {
        Some(t) => l.with_tag(t),
        None => l,
    }
}

#[derive(Clone, PartialEq)]
pub struct I {
    pub val: i128,
    pub tag: Option<Tag>,
}

impl fmt::Debug for I {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.val)?;
        if let Some(t) = &self.tag {
            write!(f, "#{:?}", t)?;
        }
        Ok(())
    }
}

impl I {
    pub fn offset(n: usize) -> I {
        I { val: n as i128, tag: Some(sval::tags::VALUE_OFFSET) }
    }
    pub fn of(i: &Index) -> I {
        let val = match i.to_i64() {
            Some(v) => v as i128,
            None => i.to_u64().map(|v| v as i128).unwrap_or(i128::MAX),
        };
        I { val, tag: i.tag().cloned() }
    }
    pub fn real(&self) -> Index {
        let i = if self.val >= 0 { Index::from(self.val as u64) } else { Index::from(self.val as i64) };
        match &self.tag {
            Some(t) => i.with_tag(t),
            None => i,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Meta {
    pub tag: Option<Tag>,
    pub label: Option<L>,
    pub index: Option<I>,
}

impl Meta {
    pub fn of(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Meta {
        Meta { tag: t.cloned(), label: l.map(L::of), index: i.map(I::of) }
    }
    pub fn tag(t: Tag) -> Meta {
        Meta { tag: Some(t), label: None, index: None }
    }
    pub fn lend<R>(&self, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
        let i = self.index.as_ref().map(|i| i.real());
        match &self.label {
            Some(l) => l.lend(|l| f(self.tag.as_ref(), Some(l), i.as_ref())),
            None => f(self.tag.as_ref(), None, i.as_ref()),
        }
    }
}

/// How a fragment was handed over: borrowed for `'sval` (with its address) or computed.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    B(usize),
    C,
}

#[derive(Clone, PartialEq)]
pub enum Ev {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(u32),
    F64(u64),
    TextBegin(Option<usize>),
    Text(String, P),
    TextEnd,
    BinBegin(Option<usize>),
    Bin(Vec<u8>, P),
    BinEnd,
    SeqBegin(Option<usize>),
    SeqVB,
    SeqVE,
    SeqEnd,
    MapBegin(Option<usize>),
    MapKB,
    MapKE,
    MapVB,
    MapVE,
    MapEnd,
    Tag(Meta),
    Hint(Tag),
    TaggedBegin(Meta),
    TaggedEnd(Meta),
    EnumBegin(Meta),
    EnumEnd(Meta),
    RecBegin(Meta, Option<usize>),
    RecVB(Option<Tag>, L),
    RecVE(Option<Tag>, L),
    RecEnd(Meta),
    TupBegin(Meta, Option<usize>),
    TupVB(Option<Tag>, I),
    TupVE(Option<Tag>, I),
    TupEnd(Meta),
    RTBegin(Meta, Option<usize>),
    RTVB(Option<Tag>, L, I),
    RTVE(Option<Tag>, L, I),
    RTEnd(Meta),
}

struct MetaD<'a>(&'a Meta);
impl<'a> fmt::Debug for MetaD<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?},{:?},{:?}", self.0.tag, self.0.label, self.0.index)
    }
}

impl fmt::Debug for Ev {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        use Ev::*;
        match self {
            Null => write!(f, "null"),
            Bool(v) => write!(f, "bool({v})"),
            U8(v) => write!(f, "u8({v})"),
            U16(v) => write!(f, "u16({v})"),
            U32(v) => write!(f, "u32({v})"),
            U64(v) => write!(f, "u64({v})"),
            U128(v) => write!(f, "u128({v})"),
            I8(v) => write!(f, "i8({v})"),
            I16(v) => write!(f, "i16({v})"),
            I32(v) => write!(f, "i32({v})"),
            I64(v) => write!(f, "i64({v})"),
            I128(v) => write!(f, "i128({v})"),
            F32(v) => write!(f, "f32({:?})", f32::from_bits(*v)),
            F64(v) => write!(f, "f64({:?})", f64::from_bits(*v)),
            TextBegin(n) => write!(f, "text_begin({n:?})"),
            Text(s, P::B(_)) => write!(f, "text_fragment({s:?})"),
            Text(s, P::C) => write!(f, "text_fragment_computed({s:?})"),
            TextEnd => write!(f, "text_end"),
            BinBegin(n) => write!(f, "binary_begin({n:?})"),
            Bin(s, P::B(_)) => write!(f, "binary_fragment({s:?})"),
            Bin(s, P::C) => write!(f, "binary_fragment_computed({s:?})"),
            BinEnd => write!(f, "binary_end"),
            SeqBegin(n) => write!(f, "seq_begin({n:?})"),
            SeqVB => write!(f, "seq_value_begin"),
            SeqVE => write!(f, "seq_value_end"),
            SeqEnd => write!(f, "seq_end"),
            MapBegin(n) => write!(f, "map_begin({n:?})"),
            MapKB => write!(f, "map_key_begin"),
            MapKE => write!(f, "map_key_end"),
            MapVB => write!(f, "map_value_begin"),
            MapVE => write!(f, "map_value_end"),
            MapEnd => write!(f, "map_end"),
            Tag(m) => write!(f, "tag({:?})", MetaD(m)),
            Hint(t) => write!(f, "tag_hint({t:?})"),
            TaggedBegin(m) => write!(f, "tagged_begin({:?})", MetaD(m)),
            TaggedEnd(m) => write!(f, "tagged_end({:?})", MetaD(m)),
            EnumBegin(m) => write!(f, "enum_begin({:?})", MetaD(m)),
            EnumEnd(m) => write!(f, "enum_end({:?})", MetaD(m)),
            RecBegin(m, n) => write!(f, "record_begin({:?},{n:?})", MetaD(m)),
            RecVB(t, l) => write!(f, "record_value_begin({t:?},{l:?})"),
            RecVE(t, l) => write!(f, "record_value_end({t:?},{l:?})"),
            RecEnd(m) => write!(f, "record_end({:?})", MetaD(m)),
            TupBegin(m, n) => write!(f, "tuple_begin({:?},{n:?})", MetaD(m)),
            TupVB(t, i) => write!(f, "tuple_value_begin({t:?},{i:?})"),
            TupVE(t, i) => write!(f, "tuple_value_end({t:?},{i:?})"),
            TupEnd(m) => write!(f, "tuple_end({:?})", MetaD(m)),
            RTBegin(m, n) => write!(f, "record_tuple_begin({:?},{n:?})", MetaD(m)),
            RTVB(t, l, i) => write!(f, "record_tuple_value_begin({t:?},{l:?},{i:?})"),
            RTVE(t, l, i) => write!(f, "record_tuple_value_end({t:?},{l:?},{i:?})"),
            RTEnd(m) => write!(f, "record_tuple_end({:?})", MetaD(m)),
        }
    }
}

/// Make the call described by `ev` on a real stream.
pub fn fire<'sval, S: Stream<'sval> + ?Sized>(ev: &'sval Ev, s: &mut S) -> sval::Result {
    use Ev::*;
    match ev {
        Null => s.null(),
        Bool(v) => s.bool(*v),
        U8(v) => s.u8(*v),
        U16(v) => s.u16(*v),
        U32(v) => s.u32(*v),
        U64(v) => s.u64(*v),
        U128(v) => s.u128(*v),
        I8(v) => s.i8(*v),
        I16(v) => s.i16(*v),
        I32(v) => s.i32(*v),
        I64(v) => s.i64(*v),
        I128(v) => s.i128(*v),
        F32(v) => s.f32(f32::from_bits(*v)),
        F64(v) => s.f64(f64::from_bits(*v)),
        TextBegin(n) => s.text_begin(*n),
        Text(t, P::B(_)) => s.text_fragment(t),
        Text(t, P::C) => ctx::lend_str(t, |t| s.text_fragment_computed(t)),
        TextEnd => s.text_end(),
        BinBegin(n) => s.binary_begin(*n),
        Bin(t, P::B(_)) => s.binary_fragment(t),
        Bin(t, P::C) => ctx::lend_bytes(t, |t| s.binary_fragment_computed(t)),
        BinEnd => s.binary_end(),
        SeqBegin(n) => s.seq_begin(*n),
        SeqVB => s.seq_value_begin(),
        SeqVE => s.seq_value_end(),
        SeqEnd => s.seq_end(),
        MapBegin(n) => s.map_begin(*n),
        MapKB => s.map_key_begin(),
        MapKE => s.map_key_end(),
        MapVB => s.map_value_begin(),
        MapVE => s.map_value_end(),
        MapEnd => s.map_end(),
        Tag(m) => m.lend(|t, l, i| s.tag(t, l, i)),
        Hint(t) => s.tag_hint(t),
        TaggedBegin(m) => m.lend(|t, l, i| s.tagged_begin(t, l, i)),
        TaggedEnd(m) => m.lend(|t, l, i| s.tagged_end(t, l, i)),
        EnumBegin(m) => m.lend(|t, l, i| s.enum_begin(t, l, i)),
        EnumEnd(m) => m.lend(|t, l, i| s.enum_end(t, l, i)),
        RecBegin(m, n) => m.lend(|t, l, i| s.record_begin(t, l, i, *n)),
        RecVB(t, l) => l.lend(|l| s.record_value_begin(t.as_ref(), l)),
        RecVE(t, l) => l.lend(|l| s.record_value_end(t.as_ref(), l)),
        RecEnd(m) => m.lend(|t, l, i| s.record_end(t, l, i)),
        TupBegin(m, n) => m.lend(|t, l, i| s.tuple_begin(t, l, i, *n)),
        TupVB(t, i) => s.tuple_value_begin(t.as_ref(), &i.real()),
        TupVE(t, i) => s.tuple_value_end(t.as_ref(), &i.real()),
        TupEnd(m) => m.lend(|t, l, i| s.tuple_end(t, l, i)),
        RTBegin(m, n) => m.lend(|t, l, i| s.record_tuple_begin(t, l, i, *n)),
        RTVB(t, l, i) => l.lend(|l| s.record_tuple_value_begin(t.as_ref(), l, &i.real())),
        RTVE(t, l, i) => l.lend(|l| s.record_tuple_value_end(t.as_ref(), l, &i.real())),
        RTEnd(m) => m.lend(|t, l, i| s.record_tuple_end(t, l, i)),
    }
}

/// Address of a borrowed fragment inside an event.
pub fn with_addr(ev: &Ev) -> Ev {
    match ev {
        Ev::Text(s, P::B(_)) => Ev::Text(s.clone(), P::B(s.as_ptr() as usize)),
        Ev::Bin(s, P::B(_)) => Ev::Bin(s.clone(), P::B(s.as_ptr() as usize)),
        e => e.clone(),
    }
}

/// Simulated consumer: records every call; fails at call `fail_at`; counts calls after its failure.
#[derive(Default)]
pub struct Rec {
    pub evs: Vec<Ev>,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    pub after: u64,
    pub after_what: Option<Ev>,
}

impl Rec {
    pub fn new(fail_at: Option<u64>) -> Rec {
        Rec { fail_at, ..Default::default() }
    }
    pub fn ev(&mut self, e: Ev) -> sval::Result {
        ctx::tick();
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
            if self.after_what.is_none() {
                self.after_what = Some(e);
            }
            return sval::error();
        }
        if self.fail_at == Some(n) {
            self.failed = true;
            return sval::error();
        }
        self.evs.push(e);
        Ok(())
    }
}

macro_rules! rec_methods {
    () => {
        fn null(&mut self) -> sval::Result { self.ev(Ev::Null) }
        fn bool(&mut self, v: bool) -> sval::Result { self.ev(Ev::Bool(v)) }
        fn u8(&mut self, v: u8) -> sval::Result { self.ev(Ev::U8(v)) }
        fn u16(&mut self, v: u16) -> sval::Result { self.ev(Ev::U16(v)) }
        fn u32(&mut self, v: u32) -> sval::Result { self.ev(Ev::U32(v)) }
        fn u64(&mut self, v: u64) -> sval::Result { self.ev(Ev::U64(v)) }
        fn u128(&mut self, v: u128) -> sval::Result { self.ev(Ev::U128(v)) }
        fn i8(&mut self, v: i8) -> sval::Result { self.ev(Ev::I8(v)) }
        fn i16(&mut self, v: i16) -> sval::Result { self.ev(Ev::I16(v)) }
        fn i32(&mut self, v: i32) -> sval::Result { self.ev(Ev::I32(v)) }
        fn i64(&mut self, v: i64) -> sval::Result { self.ev(Ev::I64(v)) }
        fn i128(&mut self, v: i128) -> sval::Result { self.ev(Ev::I128(v)) }
        fn f32(&mut self, v: f32) -> sval::Result { self.ev(Ev::F32(v.to_bits())) }
        fn f64(&mut self, v: f64) -> sval::Result { self.ev(Ev::F64(v.to_bits())) }
        fn text_begin(&mut self, n: Option<usize>) -> sval::Result { self.ev(Ev::TextBegin(n)) }
        fn text_fragment(&mut self, s: &'sval str) -> sval::Result { self.ev(Ev::Text(s.to_owned(), P::B(s.as_ptr() as usize))) }
        fn text_fragment_computed(&mut self, s: &str) -> sval::Result { self.ev(Ev::Text(s.to_owned(), P::C)) }
        fn text_end(&mut self) -> sval::Result { self.ev(Ev::TextEnd) }
        fn binary_begin(&mut self, n: Option<usize>) -> sval::Result { self.ev(Ev::BinBegin(n)) }
        fn binary_fragment(&mut self, s: &'sval [u8]) -> sval::Result { self.ev(Ev::Bin(s.to_owned(), P::B(s.as_ptr() as usize))) }
        fn binary_fragment_computed(&mut self, s: &[u8]) -> sval::Result { self.ev(Ev::Bin(s.to_owned(), P::C)) }
        fn binary_end(&mut self) -> sval::Result { self.ev(Ev::BinEnd) }
        fn seq_begin(&mut self, n: Option<usize>) -> sval::Result { self.ev(Ev::SeqBegin(n)) }
        fn seq_value_begin(&mut self) -> sval::Result { self.ev(Ev::SeqVB) }
        fn seq_value_end(&mut self) -> sval::Result { self.ev(Ev::SeqVE) }
        fn seq_end(&mut self) -> sval::Result { self.ev(Ev::SeqEnd) }
        fn map_begin(&mut self, n: Option<usize>) -> sval::Result { self.ev(Ev::MapBegin(n)) }
        fn map_key_begin(&mut self) -> sval::Result { self.ev(Ev::MapKB) }
        fn map_key_end(&mut self) -> sval::Result { self.ev(Ev::MapKE) }
        fn map_value_begin(&mut self) -> sval::Result { self.ev(Ev::MapVB) }
        fn map_value_end(&mut self) -> sval::Result { self.ev(Ev::MapVE) }
        fn map_end(&mut self) -> sval::Result { self.ev(Ev::MapEnd) }
        fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::Tag(Meta::of(t, l, i))) }
        fn tag_hint(&mut self, t: &Tag) -> sval::Result { self.ev(Ev::Hint(t.clone())) }
        fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::TaggedBegin(Meta::of(t, l, i))) }
        fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::TaggedEnd(Meta::of(t, l, i))) }
        fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::EnumBegin(Meta::of(t, l, i))) }
        fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::EnumEnd(Meta::of(t, l, i))) }
        fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result { self.ev(Ev::RecBegin(Meta::of(t, l, i), n)) }
        fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result { self.ev(Ev::RecVB(t.cloned(), L::of(l))) }
        fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result { self.ev(Ev::RecVE(t.cloned(), L::of(l))) }
        fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::RecEnd(Meta::of(t, l, i))) }
        fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result { self.ev(Ev::TupBegin(Meta::of(t, l, i), n)) }
        fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result { self.ev(Ev::TupVB(t.cloned(), I::of(i))) }
        fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result { self.ev(Ev::TupVE(t.cloned(), I::of(i))) }
        fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::TupEnd(Meta::of(t, l, i))) }
        fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result { self.ev(Ev::RTBegin(Meta::of(t, l, i), n)) }
        fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result { self.ev(Ev::RTVB(t.cloned(), L::of(l), I::of(i))) }
        fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result { self.ev(Ev::RTVE(t.cloned(), L::of(l), I::of(i))) }
        fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result { self.ev(Ev::RTEnd(Meta::of(t, l, i))) }
    };
}

impl<'sval> Stream<'sval> for Rec {
    rec_methods!();
}

/// Drop addresses; keep the borrowed/computed class.
pub fn no_addr(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::Text(s, P::B(_)) => Ev::Text(s.clone(), P::B(0)),
            Ev::Bin(s, P::B(_)) => Ev::Bin(s.clone(), P::B(0)),
            e => e.clone(),
        })
        .collect()
}

/// Merge adjacent fragments of the same class and drop empty ones.
pub fn merged(evs: &[Ev], keep_class: bool) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::with_capacity(evs.len());
    for e in evs {
        match e {
            Ev::Text(s, p) => {
                if s.is_empty() {
                    continue;
                }
                let p = if keep_class && matches!(p, P::B(_)) { P::B(0) } else { P::C };
                if let Some(Ev::Text(q, pq)) = out.last_mut() {
                    if *pq == p {
                        q.push_str(s);
                        continue;
                    }
                }
                out.push(Ev::Text(s.clone(), p));
            }
            Ev::Bin(s, p) => {
                if s.is_empty() {
                    continue;
                }
                let p = if keep_class && matches!(p, P::B(_)) { P::B(0) } else { P::C };
                if let Some(Ev::Bin(q, pq)) = out.last_mut() {
                    if *pq == p {
                        q.extend_from_slice(s);
                        continue;
                    }
                }
                out.push(Ev::Bin(s.clone(), p));
            }
            e => out.push(e.clone()),
        }
    }
    out
}

/// Content view: fragments merged whatever their class, size hints of text/binary and tag hints dropped,
/// staticness of labels ignored.
pub fn content(evs: &[Ev]) -> Vec<Ev> {
    let evs: Vec<Ev> = evs
        .iter()
        .filter(|e| !matches!(e, Ev::Hint(_)))
        .map(|e| match e {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::BinBegin(_) => Ev::BinBegin(None),
            e => e.clone(),
        })
        .collect();
    let mut out = merged(&evs, false);
    for e in &mut out {
        unstat(e);
    }
    out
}

/// As `content`, keeping hints outside text and binary.
pub fn content_hints(evs: &[Ev]) -> Vec<Ev> {
    let mut inside = false;
    let evs: Vec<Ev> = evs
        .iter()
        .filter(|e| {
            match e {
                Ev::TextBegin(_) | Ev::BinBegin(_) => inside = true,
                Ev::TextEnd | Ev::BinEnd => inside = false,
                Ev::Hint(_) => return !inside,
                _ => {}
            }
            true
        })
        .map(|e| match e {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::BinBegin(_) => Ev::BinBegin(None),
            e => e.clone(),
        })
        .collect();
    let mut out = merged(&evs, false);
    for e in &mut out {
        unstat(e);
    }
    out
}

/// Prefix of content: `got` is a prefix of `want`, the last fragment possibly cut.
pub fn is_prefix(want: &[Ev], got: &[Ev]) -> Option<String> {
    for (i, e) in got.iter().enumerate() {
        let last = i + 1 == got.len();
        match (want.get(i), e) {
            (Some(a), b) if a == b => {}
            (Some(Ev::Text(a, _)), Ev::Text(b, _)) if last && a.starts_with(b.as_str()) => {}
            (Some(Ev::Bin(a, _)), Ev::Bin(b, _)) if last && a.starts_with(b) => {}
            (a, b) => return Some(format!("event #{i}: expected {a:?} got {b:?}")),
        }
    }
    None
}

pub fn for_labels(e: &mut Ev, f: &mut impl FnMut(&mut L)) {
    use Ev::*;
    match e {
        Tag(m) | TaggedBegin(m) | TaggedEnd(m) | EnumBegin(m) | EnumEnd(m) | RecBegin(m, _) | RecEnd(m)
        | TupBegin(m, _) | TupEnd(m) | RTBegin(m, _) | RTEnd(m) => {
            if let Some(l) = &mut m.label {
                f(l)
            }
        }
        RecVB(_, l) | RecVE(_, l) | RTVB(_, l, _) | RTVE(_, l, _) => f(l),
        _ => {}
    }
}

pub fn unstat(e: &mut Ev) {
    for_labels(e, &mut |l| l.stat = None);
}

pub fn show(evs: &[Ev]) -> String {
    let mut s = String::new();
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            s.push_str(" ");
        }
        s.push_str(&format!("{:?}", e));
        if s.len() > 6000 {
            s.push_str(" ...");
            break;
        }
    }
    s
}

/// First difference between two event lists, for reports.
pub fn diff(want: &[Ev], got: &[Ev]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Some(format!(
                "event #{i}: expected {} got {}",
                w.map(|e| format!("{e:?}")).unwrap_or("<end>".into()),
                g.map(|e| format!("{e:?}")).unwrap_or("<end>".into())
            ));
        }
    }
    None
}
