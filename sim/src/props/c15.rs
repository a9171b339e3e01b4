//! C15: built-in and derived values emit well-formed streams that match their data.

use super::c01::stream_any;
use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Gen};
use crate::proto::{self, N as Node};
use crate::real::{none, some, FixedState, Frags, Real};
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use std::collections::{BTreeMap, HashMap};
use sval_derive::Value;

/// A value of some type from the tape, and the events its data calls for.
pub trait Item: sval::Value + Sized {
    /// Whether text and binary data have to be lent as `want` says.
    const CLASS: bool = true;
    fn arb(g: &mut Gen) -> Self;
    fn want(&self, x: &mut Vec<Ev>);
}

fn txt(x: &mut Vec<Ev>, s: &str) {
    x.push(Ev::TextBegin(Some(s.len())));
    x.push(Ev::Text(s.to_owned(), P::B(0)));
    x.push(Ev::TextEnd);
}

fn computed(x: &mut Vec<Ev>, s: &str) {
    x.push(Ev::TextBegin(None));
    x.push(Ev::Text(s.to_owned(), P::C));
    x.push(Ev::TextEnd);
}

macro_rules! ints {
    ($($t:ident $e:ident)+) => { $(
        impl Item for $t {
            fn arb(g: &mut Gen) -> Self { g.int() as $t }
            fn want(&self, x: &mut Vec<Ev>) { x.push(Ev::$e(*self)) }
        }
    )+ };
}
ints!(u8 U8 u16 U16 u32 U32 u64 U64 u128 U128 i8 I8 i16 I16 i32 I32 i64 I64 i128 I128);

impl Item for f32 {
    fn arb(g: &mut Gen) -> Self {
        g.f32()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::F32(self.to_bits()))
    }
}
impl Item for f64 {
    fn arb(g: &mut Gen) -> Self {
        g.f64()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::F64(self.to_bits()))
    }
}
impl Item for bool {
    fn arb(g: &mut Gen) -> Self {
        g.t.draw(2) == 1
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::Bool(*self))
    }
}
impl Item for () {
    fn arb(_: &mut Gen) -> Self {}
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::Tag(Meta::tag(sval::tags::RUST_UNIT)))
    }
}
impl Item for sval::Null {
    fn arb(_: &mut Gen) -> Self {
        sval::Null
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::Null)
    }
}
impl Item for char {
    fn arb(g: &mut Gen) -> Self {
        let n = [0x80, 0x800, 0x1_0000, 0x11_0000][g.t.draw(4)];
        char::from_u32(g.t.draw(n) as u32).unwrap_or('\u{d7ff}')
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::TextBegin(Some(self.len_utf8())));
        x.push(Ev::Text(self.to_string(), P::C));
        x.push(Ev::TextEnd);
    }
}
impl Item for String {
    fn arb(g: &mut Gen) -> Self {
        g.text()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        txt(x, self)
    }
}
impl Item for Box<str> {
    fn arb(g: &mut Gen) -> Self {
        g.text().into()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        txt(x, self)
    }
}
impl<T: Item> Item for Box<T> {
    fn arb(g: &mut Gen) -> Self {
        Box::new(T::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        (**self).want(x)
    }
}
impl<T: Item> Item for Option<T> {
    fn arb(g: &mut Gen) -> Self {
        if g.t.draw(3) == 0 {
            None
        } else {
            Some(T::arb(g))
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            Some(v) => {
                x.push(Ev::TaggedBegin(some()));
                v.want(x);
                x.push(Ev::TaggedEnd(some()));
            }
            None => x.push(Ev::Tag(none())),
        }
    }
}

fn len(g: &mut Gen) -> usize {
    [0, 1, 2, 3, 5, 9][g.t.draw(6)]
}

fn seq<'a, T: Item + 'a>(x: &mut Vec<Ev>, v: impl ExactSizeIterator<Item = &'a T>) {
    x.push(Ev::SeqBegin(Some(v.len())));
    for v in v {
        x.push(Ev::SeqVB);
        v.want(x);
        x.push(Ev::SeqVE);
    }
    x.push(Ev::SeqEnd);
}

fn map<'a, K: Item + 'a, V: Item + 'a>(x: &mut Vec<Ev>, v: impl ExactSizeIterator<Item = (&'a K, &'a V)>) {
    x.push(Ev::MapBegin(Some(v.len())));
    for (k, v) in v {
        x.push(Ev::MapKB);
        k.want(x);
        x.push(Ev::MapKE);
        x.push(Ev::MapVB);
        v.want(x);
        x.push(Ev::MapVE);
    }
    x.push(Ev::MapEnd);
}

impl<T: Item> Item for Vec<T> {
    fn arb(g: &mut Gen) -> Self {
        (0..len(g)).map(|_| T::arb(g)).collect()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        seq(x, self.iter())
    }
}
impl<T: Item> Item for Box<[T]> {
    fn arb(g: &mut Gen) -> Self {
        Vec::arb(g).into()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        seq(x, self.iter())
    }
}
impl<T: Item, const N: usize> Item for [T; N] {
    fn arb(g: &mut Gen) -> Self {
        std::array::from_fn(|_| T::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::TaggedBegin(Meta::tag(sval::tags::CONSTANT_SIZE)));
        seq(x, self.iter());
        x.push(Ev::TaggedEnd(Meta::tag(sval::tags::CONSTANT_SIZE)));
    }
}
impl<K: Item + Ord, V: Item> Item for BTreeMap<K, V> {
    fn arb(g: &mut Gen) -> Self {
        (0..len(g)).map(|_| (K::arb(g), V::arb(g))).collect()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        map(x, self.iter())
    }
}
impl<K: Item + Eq + std::hash::Hash, V: Item> Item for HashMap<K, V, FixedState> {
    fn arb(g: &mut Gen) -> Self {
        (0..len(g)).map(|_| (K::arb(g), V::arb(g))).collect()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        map(x, self.iter())
    }
}

macro_rules! tup {
    ($(($($i:tt $t:ident),+))+) => { $(
        impl<$($t: Item),+> Item for ($($t,)+) {
            fn arb(g: &mut Gen) -> Self { ($($t::arb(g),)+) }
            fn want(&self, x: &mut Vec<Ev>) {
                let n = [$($i),+].len();
                x.push(Ev::TupBegin(Meta::default(), Some(n)));
                $(
                    x.push(Ev::TupVB(None, I::offset($i)));
                    self.$i.want(x);
                    x.push(Ev::TupVE(None, I::offset($i)));
                )+
                x.push(Ev::TupEnd(Meta::default()));
            }
        }
    )+ };
}
tup! {
    (0 A)
    (0 A, 1 B)
    (0 A, 1 B, 2 C)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 J, 9 K, 10 L, 11 M)
}

/// Values reached through wrappers that only exist by reference.
pub struct MapOf<K, V>(Vec<(K, V)>);
impl<K: Item, V: Item> sval::Value for MapOf<K, V> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval::MapSlice::new(&self.0).stream(s)
    }
}
impl<K: Item, V: Item> Item for MapOf<K, V> {
    fn arb(g: &mut Gen) -> Self {
        MapOf((0..len(g)).map(|_| (K::arb(g), V::arb(g))).collect())
    }
    fn want(&self, x: &mut Vec<Ev>) {
        map(x, self.0.iter().map(|(k, v)| (k, v)))
    }
}

pub struct Bytes(Vec<u8>);
impl sval::Value for Bytes {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::BinarySlice::new(&self.0))
    }
    fn to_binary(&self) -> Option<&[u8]> {
        sval::BinarySlice::new(&self.0).to_binary()
    }
}
fn bin(x: &mut Vec<Ev>, b: &[u8]) {
    x.push(Ev::BinBegin(Some(b.len())));
    x.push(Ev::Bin(b.to_owned(), P::B(0)));
    x.push(Ev::BinEnd);
}
impl Item for Bytes {
    fn arb(g: &mut Gen) -> Self {
        Bytes(g.bytes())
    }
    fn want(&self, x: &mut Vec<Ev>) {
        bin(x, &self.0)
    }
}

pub struct ByteArr<const N: usize>([u8; N]);
impl<const N: usize> sval::Value for ByteArr<N> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval::BinaryArray::new(&self.0).stream(s)
    }
}
impl<const N: usize> Item for ByteArr<N> {
    fn arb(g: &mut Gen) -> Self {
        ByteArr(std::array::from_fn(|_| g.t.draw(256) as u8))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        x.push(Ev::TaggedBegin(Meta::tag(sval::tags::CONSTANT_SIZE)));
        bin(x, &self.0);
        x.push(Ev::TaggedEnd(Meta::tag(sval::tags::CONSTANT_SIZE)));
    }
}

pub struct Json(Box<sval_json::JsonStr>);
impl sval::Value for Json {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.0.stream(s)
    }
}
impl Item for Json {
    fn arb(g: &mut Gen) -> Self {
        let j = *g.t.pick(&["1", "[1,2]", "{\"a\":null}", "\"x\"", "true"]);
        Json(if g.t.draw(2) == 0 { sval_json::JsonStr::boxed(j) } else { Box::<str>::from(j).into() })
    }
    fn want(&self, x: &mut Vec<Ev>) {
        let m = Meta::tag(sval_json::tags::JSON_VALUE);
        x.push(Ev::TaggedBegin(m.clone()));
        txt(x, self.0.as_str());
        x.push(Ev::TaggedEnd(m));
    }
}

#[derive(Debug)]
#[allow(dead_code)]
pub struct Dbg {
    a: i32,
    b: Frags,
}

fn frags(g: &mut Gen) -> Frags {
    Frags((0..len(g)).map(|_| g.text()).collect())
}

macro_rules! shows {
    ($($n:ident($inner:ty, $v:ty, $new:expr, $text:expr);)+) => { $(
        pub struct $n($inner, String);
        impl sval::Value for $n {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                s.value(&self.0)
            }
        }
        impl Item for $n {
            fn arb(g: &mut Gen) -> Self {
                let v: $v = ($new)(g);
                let t: String = ($text)(&v);
                $n(<$inner>::new(v), t)
            }
            fn want(&self, x: &mut Vec<Ev>) {
                computed(x, &self.1)
            }
        }
    )+ };
}
shows! {
    FmtDebug(sval_fmt::DebugToValue<Dbg>, Dbg, |g: &mut Gen| Dbg { a: g.int() as i32, b: frags(g) }, |v: &Dbg| format!("{v:?}"));
    FmtDisplay(sval_fmt::DisplayToValue<Frags>, Frags, frags, |v: &Frags| v.0.concat());
    Shown(sval::Display<Frags>, Frags, frags, |v: &Frags| v.0.concat());
    SvalDisplay(sval::Display<f64>, f64, |g: &mut Gen| g.f64(), |v: &f64| v.to_string());
}

pub struct Buf(sval_buffer::TextBuf<'static>);
impl sval::Value for Buf {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.0.stream(s)
    }
}
impl Item for Buf {
    const CLASS: bool = false;
    fn arb(g: &mut Gen) -> Self {
        let mut b = sval_buffer::TextBuf::new();
        for _ in 0..len(g) {
            b.push_fragment_computed(&g.text()).unwrap();
        }
        Buf(b)
    }
    fn want(&self, x: &mut Vec<Ev>) {
        txt(x, self.0.as_str())
    }
}

pub struct BufB(sval_buffer::BinaryBuf<'static>);
impl sval::Value for BufB {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.0.stream(s)
    }
}
impl Item for BufB {
    const CLASS: bool = false;
    fn arb(g: &mut Gen) -> Self {
        let mut b = sval_buffer::BinaryBuf::new();
        for _ in 0..len(g) {
            b.push_fragment_computed(&g.bytes()).unwrap();
        }
        BufB(b)
    }
    fn want(&self, x: &mut Vec<Ev>) {
        bin(x, self.0.as_slice())
    }
}

/// A buffered value: what it streams is what was buffered.
pub struct Held<T>(T, sval_buffer::Value<'static>);
impl<T> sval::Value for Held<T> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.1.stream(s)
    }
}
impl<T: Item> Item for Held<T> {
    const CLASS: bool = false;
    fn arb(g: &mut Gen) -> Self {
        let v = T::arb(g);
        let b = sval_buffer::Value::collect_owned(&v).expect("buffered");
        Held(v, b)
    }
    fn want(&self, x: &mut Vec<Ev>) {
        let mut y = vec![];
        self.0.want(&mut y);
        let mut len = None;
        // text is held whole, and its length is then known
        for (i, e) in y.iter().enumerate() {
            match e {
                Ev::TextBegin(None) => {
                    len = Some(y[i..].iter().take_while(|e| !matches!(e, Ev::TextEnd)).map(|e| if let Ev::Text(s, _) = e { s.len() } else { 0 }).sum());
                    x.push(Ev::TextBegin(len))
                }
                Ev::Text(s, _) => x.push(Ev::Text(s.clone(), P::B(0))),
                e => x.push(e.clone()),
            }
        }
        let _ = len;
    }
}

pub struct Refs<T>(Vec<T>);
impl<T: Item> sval::Value for Refs<T> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval_ref::ValueRef;
        let r: Vec<sval_ref::Ref<&'sval T>> = self.0.iter().map(sval_ref::to_ref).collect();
        r.stream_ref(s)
    }
}
impl<T: Item> Item for Refs<T> {
    fn arb(g: &mut Gen) -> Self {
        Refs(Vec::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        seq(x, self.0.iter())
    }
}

// derived types

const LBL: sval::Label<'static> = sval::Label::new("a const label");
const IDX: isize = 1000;
const TG: sval::Tag = sval::Tag::new("tg");

struct Fld<'a> {
    tag: Option<sval::Tag>,
    label: L,
    index: I,
    v: Box<dyn Fn(&mut Vec<Ev>) + 'a>,
}

fn at(n: i128) -> I {
    I { val: n, tag: None }
}

fn fld<'a, T: Item>(label: &'static str, i: usize, v: &'a T) -> Fld<'a> {
    Fld { tag: None, label: L::ident(label), index: I::offset(i), v: Box::new(move |x| v.want(x)) }
}

impl<'a> Fld<'a> {
    fn ix(mut self, n: i128) -> Self {
        self.index = at(n);
        self
    }
    fn lb(mut self, s: &'static str) -> Self {
        self.label = L::stat(s);
        self
    }
    fn tg(mut self) -> Self {
        self.tag = Some(TG);
        self
    }
    fn data(self) -> Self {
        let v = self.v;
        Fld {
            v: Box::new(move |x| {
                x.push(Ev::TaggedBegin(Meta::tag(TG)));
                v(x);
                x.push(Ev::TaggedEnd(Meta::tag(TG)));
            }),
            ..self
        }
    }
}

fn named(s: &'static str) -> Meta {
    Meta { tag: None, label: Some(L::ident(s)), index: None }
}

fn var(s: &'static str, i: usize) -> Meta {
    Meta { tag: None, label: Some(L::ident(s)), index: Some(I::offset(i)) }
}

fn var_at(s: &'static str, i: i128) -> Meta {
    Meta { tag: None, label: Some(L::ident(s)), index: Some(at(i)) }
}

fn rt(x: &mut Vec<Ev>, m: Meta, f: &[Fld]) {
    x.push(Ev::RTBegin(m.clone(), Some(f.len())));
    for f in f {
        x.push(Ev::RTVB(f.tag.clone(), f.label.clone(), f.index.clone()));
        (f.v)(x);
        x.push(Ev::RTVE(f.tag.clone(), f.label.clone(), f.index.clone()));
    }
    x.push(Ev::RTEnd(m));
}

fn rec(x: &mut Vec<Ev>, m: Meta, f: &[Fld]) {
    x.push(Ev::RecBegin(m.clone(), Some(f.len())));
    for f in f {
        x.push(Ev::RecVB(f.tag.clone(), f.label.clone()));
        (f.v)(x);
        x.push(Ev::RecVE(f.tag.clone(), f.label.clone()));
    }
    x.push(Ev::RecEnd(m));
}

fn tp(x: &mut Vec<Ev>, m: Meta, f: &[Fld]) {
    x.push(Ev::TupBegin(m.clone(), Some(f.len())));
    for f in f {
        x.push(Ev::TupVB(f.tag.clone(), f.index.clone()));
        (f.v)(x);
        x.push(Ev::TupVE(f.tag.clone(), f.index.clone()));
    }
    x.push(Ev::TupEnd(m));
}

fn tg(x: &mut Vec<Ev>, m: Meta, f: impl FnOnce(&mut Vec<Ev>)) {
    x.push(Ev::TaggedBegin(m.clone()));
    f(x);
    x.push(Ev::TaggedEnd(m));
}

fn en(x: &mut Vec<Ev>, m: Meta, f: impl FnOnce(&mut Vec<Ev>)) {
    x.push(Ev::EnumBegin(m.clone()));
    f(x);
    x.push(Ev::EnumEnd(m));
}

#[derive(Value)]
pub struct Raw {
    r#type: u8,
    r#fn: String,
}
impl Item for Raw {
    fn arb(g: &mut Gen) -> Self {
        Raw { r#type: u8::arb(g), r#fn: String::arb(g) }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("Raw"), &[fld("type", 0, &self.r#type), fld("fn", 1, &self.r#fn)])
    }
}

#[derive(Value)]
#[allow(non_camel_case_types)]
pub enum r#RawEnum {
    r#match,
    r#loop(u8),
    r#if { r#in: i64 },
}
impl Item for RawEnum {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => RawEnum::r#match,
            1 => RawEnum::r#loop(u8::arb(g)),
            _ => RawEnum::r#if { r#in: i64::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, named("RawEnum"), |x| match self {
            RawEnum::r#match => x.push(Ev::Tag(var("match", 0))),
            RawEnum::r#loop(v) => tg(x, var("loop", 1), |x| v.want(x)),
            RawEnum::r#if { r#in } => rt(x, var("if", 2), &[fld("in", 0, r#in)]),
        })
    }
}

#[derive(Value)]
pub struct Life<'a, T: 'a, const N: usize> {
    data: [T; N],
    name: &'a str,
    next: Option<Box<Life<'a, T, N>>>,
}
impl<T: Item, const N: usize> Item for Life<'static, T, N> {
    fn arb(g: &mut Gen) -> Self {
        let next = if g.t.draw(3) == 2 { Some(Box::new(Self::arb(g))) } else { None };
        Life { data: Item::arb(g), name: *g.t.pick(&["", "name", "ünï"]), next }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("Life"), &[
            fld("data", 0, &self.data),
            Fld { tag: None, label: L::ident("name"), index: I::offset(1), v: Box::new(|x| txt(x, self.name)) },
            fld("next", 2, &self.next),
        ])
    }
}

#[derive(Value)]
pub struct SkipFirst {
    #[sval(skip)]
    #[allow(dead_code)]
    a: u8,
    b: u8,
    #[sval(skip)]
    #[allow(dead_code)]
    c: String,
    d: Option<bool>,
}
impl Item for SkipFirst {
    fn arb(g: &mut Gen) -> Self {
        SkipFirst { a: u8::arb(g), b: u8::arb(g), c: String::arb(g), d: Item::arb(g) }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("SkipFirst"), &[fld("b", 0, &self.b), fld("d", 1, &self.d)])
    }
}

#[derive(Value)]
pub struct SkipTup(u8, #[sval(skip)] #[allow(dead_code)] u16, i32, #[sval(data_tag = "TG")] Option<String>);
impl Item for SkipTup {
    fn arb(g: &mut Gen) -> Self {
        SkipTup(u8::arb(g), u16::arb(g), i32::arb(g), Item::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        tp(x, named("SkipTup"), &[fld("", 0, &self.0), fld("", 1, &self.2), fld("", 2, &self.3).data()])
    }
}

#[derive(Value)]
pub struct SkipAll {
    #[sval(skip)]
    #[allow(dead_code)]
    a: u8,
}
impl Item for SkipAll {
    fn arb(g: &mut Gen) -> Self {
        SkipAll { a: u8::arb(g) }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("SkipAll"), &[])
    }
}

#[derive(Value)]
pub struct Braces {}
impl Item for Braces {
    fn arb(_: &mut Gen) -> Self {
        Braces {}
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("Braces"), &[])
    }
}

#[derive(Value)]
pub struct Parens();
impl Item for Parens {
    fn arb(_: &mut Gen) -> Self {
        Parens()
    }
    fn want(&self, x: &mut Vec<Ev>) {
        tp(x, named("Parens"), &[])
    }
}

#[derive(Value)]
#[sval(label = LBL, index = IDX, tag = TG)]
pub struct Consts {
    #[sval(label = LBL)]
    a: u8,
    #[sval(index = IDX, tag = TG)]
    b: f32,
    c: char,
    #[sval(index = -5, data_tag = TG, label = "neg")]
    d: (),
    e: u64,
}
impl Item for Consts {
    fn arb(g: &mut Gen) -> Self {
        Consts { a: Item::arb(g), b: Item::arb(g), c: Item::arb(g), d: (), e: Item::arb(g) }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        let m = Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: Some(at(1000)) };
        rt(x, m, &[
            fld("", 0, &self.a).lb("a const label"),
            fld("b", 0, &self.b).ix(1000).tg(),
            // a constant's value isn't known to the macro: the following fields count on from their position
            fld("c", 0, &self.c).ix(2),
            fld("", 0, &self.d).lb("neg").ix(-5).data(),
            fld("e", 0, &self.e).ix(-4),
        ])
    }
}

#[derive(Value)]
pub struct LabelledTup(#[sval(label = "x")] u8, #[sval(label = "y", tag = "TG")] bool);
impl Item for LabelledTup {
    fn arb(g: &mut Gen) -> Self {
        LabelledTup(Item::arb(g), Item::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rt(x, named("LabelledTup"), &[fld("", 0, &self.0).lb("x"), fld("", 1, &self.1).lb("y").tg()])
    }
}

#[derive(Value)]
#[sval(unindexed_fields)]
pub struct PlainTup(u8, String);
impl Item for PlainTup {
    fn arb(g: &mut Gen) -> Self {
        PlainTup(Item::arb(g), Item::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        tg(x, named("PlainTup"), |x| {
            x.push(Ev::SeqBegin(Some(2)));
            x.push(Ev::SeqVB);
            self.0.want(x);
            x.push(Ev::SeqVE);
            x.push(Ev::SeqVB);
            self.1.want(x);
            x.push(Ev::SeqVE);
            x.push(Ev::SeqEnd);
        })
    }
}

#[derive(Value)]
#[sval(unindexed_fields)]
pub struct PlainRec {
    #[sval(skip)]
    #[allow(dead_code)]
    z: u8,
    a: u8,
    #[sval(tag = "TG", data_tag = "TG")]
    b: Vec<u8>,
}
impl Item for PlainRec {
    fn arb(g: &mut Gen) -> Self {
        PlainRec { z: 0, a: Item::arb(g), b: Item::arb(g) }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        rec(x, named("PlainRec"), &[fld("a", 0, &self.a), fld("b", 0, &self.b).tg().data()])
    }
}

#[derive(Value)]
#[sval(tag = "TG", index = 2)]
pub struct NewT<T>(T);
impl<T: Item> Item for NewT<T> {
    fn arb(g: &mut Gen) -> Self {
        NewT(Item::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        tg(x, Meta { tag: Some(TG), label: Some(L::ident("NewT")), index: Some(at(2)) }, |x| self.0.want(x))
    }
}

#[derive(Value)]
#[sval(transparent)]
pub struct Clear<T>(T);
impl<T: Item> Item for Clear<T> {
    fn arb(g: &mut Gen) -> Self {
        Clear(Item::arb(g))
    }
    fn want(&self, x: &mut Vec<Ev>) {
        self.0.want(x)
    }
}

/// The index after a variant with an attribute's index counts on from the variants without one.
#[derive(Value)]
pub enum Mixed {
    A,
    #[sval(index = 40)]
    B,
    C(u8),
    #[sval(index = IDX)]
    D(u8, #[sval(skip)] #[allow(dead_code)] u8, bool),
    E(),
    F {},
    #[sval(label = LBL, tag = TG)]
    G { #[sval(index = 3)] a: u8, b: u8 },
}
impl Item for Mixed {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(7) {
            0 => Mixed::A,
            1 => Mixed::B,
            2 => Mixed::C(Item::arb(g)),
            3 => Mixed::D(Item::arb(g), 0, Item::arb(g)),
            4 => Mixed::E(),
            5 => Mixed::F {},
            _ => Mixed::G { a: Item::arb(g), b: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, named("Mixed"), |x| match self {
            Mixed::A => x.push(Ev::Tag(var("A", 0))),
            Mixed::B => x.push(Ev::Tag(var_at("B", 40))),
            Mixed::C(v) => tg(x, var("C", 1), |x| v.want(x)),
            Mixed::D(a, _, c) => tp(x, var_at("D", 1000), &[fld("", 0, a), fld("", 1, c)]),
            Mixed::E() => tp(x, var("E", 2), &[]),
            Mixed::F {} => rt(x, var("F", 3), &[]),
            Mixed::G { a, b } => rt(x, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: Some(I::offset(4)) }, &[
                fld("a", 0, a).ix(3),
                fld("b", 0, b).ix(4),
            ]),
        })
    }
}

#[derive(Value, Clone, Copy)]
#[repr(i8)]
pub enum Discs {
    A = -2,
    B,
    #[sval(index = 9)]
    C = 100,
    D,
    #[sval(label = "ee")]
    E = 5,
}
impl Item for Discs {
    fn arb(g: &mut Gen) -> Self {
        [Discs::A, Discs::B, Discs::C, Discs::D, Discs::E][g.t.draw(5)]
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, named("Discs"), |x| {
            x.push(Ev::Tag(match self {
                Discs::A => var_at("A", -2),
                Discs::B => var_at("B", -1),
                Discs::C => var_at("C", 9),
                // the index of C is given by its attribute, so its discriminant doesn't count
                Discs::D => var_at("D", 0),
                Discs::E => Meta { tag: None, label: Some(L::stat("ee")), index: Some(at(5)) },
            }))
        })
    }
}

#[derive(Value)]
#[sval(dynamic)]
pub enum Dynamic {
    U(u8),
    T(String),
    R { a: u8, #[sval(skip)] #[allow(dead_code)] b: u8 },
    P(bool, Option<i8>),
    #[sval(tag = "TG", label = "nothing")]
    N,
}
impl Item for Dynamic {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => Dynamic::U(Item::arb(g)),
            1 => Dynamic::T(Item::arb(g)),
            2 => Dynamic::R { a: Item::arb(g), b: 1 },
            3 => Dynamic::P(Item::arb(g), Item::arb(g)),
            _ => Dynamic::N,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            Dynamic::U(v) => v.want(x),
            Dynamic::T(v) => v.want(x),
            Dynamic::R { a, .. } => rt(x, Meta::default(), &[fld("a", 0, a)]),
            Dynamic::P(a, b) => tp(x, Meta::default(), &[fld("", 0, a), fld("", 1, b)]),
            Dynamic::N => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("nothing")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants, tag = "TG")]
pub enum Bare<T, U> where U: Clone {
    A,
    B(T),
    C { a: U, b: T },
    #[sval(unlabeled_fields, unindexed_fields)]
    D { a: u8 },
}
impl<T: Item, U: Item + Clone> Item for Bare<T, U> {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => Bare::A,
            1 => Bare::B(Item::arb(g)),
            2 => Bare::C { a: Item::arb(g), b: Item::arb(g) },
            _ => Bare::D { a: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("Bare")), index: None }, |x| match self {
            Bare::A => x.push(Ev::Tag(Meta::default())),
            Bare::B(v) => tg(x, Meta::default(), |x| v.want(x)),
            Bare::C { a, b } => rt(x, Meta::default(), &[fld("a", 0, a), fld("b", 1, b)]),
            Bare::D { a } => tg(x, Meta::default(), |x| {
                x.push(Ev::SeqBegin(Some(1)));
                x.push(Ev::SeqVB);
                a.want(x);
                x.push(Ev::SeqVE);
                x.push(Ev::SeqEnd);
            }),
        })
    }
}

/// What the scalar (or text, or anything else) inside wrappers is.
fn core<'a>(n: &'a Node, wrapped: &mut bool) -> &'a Node {
    match n {
        Node::Tagged(m, n) => {
            if m.tag.as_ref() != Some(&sval::tags::RUST_OPTION_SOME) {
                *wrapped = true;
            }
            core(n, wrapped)
        }
        Node::Enum(_, n) => {
            *wrapped = true;
            core(n, wrapped)
        }
        n => n,
    }
}

fn int(e: &Ev) -> Option<Result<i128, u128>> {
    Some(Ok(match e {
        Ev::U8(v) => *v as i128,
        Ev::U16(v) => *v as i128,
        Ev::U32(v) => *v as i128,
        Ev::U64(v) => *v as i128,
        Ev::U128(v) => return Some(i128::try_from(*v).map_err(|_| *v)),
        Ev::I8(v) => *v as i128,
        Ev::I16(v) => *v as i128,
        Ev::I32(v) => *v as i128,
        Ev::I64(v) => *v as i128,
        Ev::I128(v) => *v,
        _ => return None,
    }))
}

/// The conversions must agree with the events.
pub fn conversions(evs: &[Ev], c: &Conv) -> Option<String> {
    let n = match proto::parse(evs) {
        Ok(n) => n,
        Err(e) => return Some(format!("not well formed: {e}")),
    };
    let mut wrapped = false;
    let v = core(&n, &mut wrapped);
    // all integers a conversion gave, widened
    let ints: Vec<(&str, Result<i128, u128>)> = [
        ("to_i8", c.i.0.map(|v| Ok(v as i128))),
        ("to_i16", c.i.1.map(|v| Ok(v as i128))),
        ("to_i32", c.i.2.map(|v| Ok(v as i128))),
        ("to_i64", c.i.3.map(|v| Ok(v as i128))),
        ("to_i128", c.i.4.map(Ok)),
        ("to_u8", c.u.0.map(|v| Ok(v as i128))),
        ("to_u16", c.u.1.map(|v| Ok(v as i128))),
        ("to_u32", c.u.2.map(|v| Ok(v as i128))),
        ("to_u64", c.u.3.map(|v| Ok(v as i128))),
        ("to_u128", c.u.4.map(|v| i128::try_from(v).map_err(|_| v))),
    ]
    .into_iter()
    .filter_map(|(k, v)| v.map(|v| (k, v)))
    .collect();
    let scalar = if let Node::Scalar(e) = v { Some(e) } else { None };
    let is = scalar.and_then(int);
    for (k, got) in &ints {
        if Some(*got) != is {
            // a float may convert to the integer it equals
            let f = match scalar {
                Some(Ev::F64(b)) => Some(f64::from_bits(*b)),
                Some(Ev::F32(b)) => Some(f32::from_bits(*b) as f64),
                _ => None,
            };
            if !(f.is_some() && got.ok().map(|g| g as f64) == f) {
                return Some(format!("{k} gives {got:?} for {v:?}"));
            }
        }
    }
    let own = match scalar {
        Some(Ev::U8(v)) => c.u.0 == Some(*v),
        Some(Ev::U16(v)) => c.u.1 == Some(*v),
        Some(Ev::U32(v)) => c.u.2 == Some(*v),
        Some(Ev::U64(v)) => c.u.3 == Some(*v),
        Some(Ev::U128(v)) => c.u.4 == Some(*v),
        Some(Ev::I8(v)) => c.i.0 == Some(*v),
        Some(Ev::I16(v)) => c.i.1 == Some(*v),
        Some(Ev::I32(v)) => c.i.2 == Some(*v),
        Some(Ev::I64(v)) => c.i.3 == Some(*v),
        Some(Ev::I128(v)) => c.i.4 == Some(*v),
        Some(Ev::F32(v)) => c.f.0 == Some(*v),
        Some(Ev::F64(v)) => c.f.1 == Some(*v),
        Some(Ev::Bool(v)) => c.b == Some(*v),
        _ => true,
    };
    if !own && !wrapped {
        return Some(format!("{scalar:?} doesn't convert to its own type: {c:?}"));
    }
    match (c.b, scalar) {
        (Some(a), Some(Ev::Bool(b))) if a == *b => {}
        (Some(a), _) => return Some(format!("to_bool gives {a:?} for {v:?}")),
        _ => {}
    }
    let float = |got: f64, bits_nan: bool| -> bool {
        match scalar {
            Some(Ev::F64(b)) => got.to_bits() == *b || (bits_nan && f64::from_bits(*b).is_nan()),
            Some(Ev::F32(b)) => got.to_bits() == (f32::from_bits(*b) as f64).to_bits() || (bits_nan && f32::from_bits(*b).is_nan()),
            Some(e) => match int(e) {
                Some(Ok(n)) => got as i128 == n && n as f64 == got,
                Some(Err(n)) => got as u128 == n && n as f64 == got,
                None => false,
            },
            None => false,
        }
    };
    if let Some(f) = c.f.1 {
        let f = f64::from_bits(f);
        if !float(f, f.is_nan()) {
            return Some(format!("to_f64 gives {f:?} for {v:?}"));
        }
    }
    if let Some(f) = c.f.0 {
        let f = f32::from_bits(f) as f64;
        if !float(f, f.is_nan()) {
            return Some(format!("to_f32 gives {f:?} for {v:?}"));
        }
    }
    let frags = |t: bool| evs.iter().filter(|e| if t { matches!(e, Ev::Text(..)) } else { matches!(e, Ev::Bin(..)) }).count();
    let borrowed = evs.iter().all(|e| !matches!(e, Ev::Text(_, P::C) | Ev::Bin(_, P::C)));
    match (&c.text, v) {
        (Some((s, _)), Node::Text(t)) if s == t => {}
        (Some((s, _)), Node::Tag(m)) if m.label.as_ref().map_or(false, |l| l.text == *s) => {}
        (Some((s, _)), _) => return Some(format!("to_text gives {s:?} for {v:?}")),
        (None, Node::Text(t)) if !wrapped && borrowed && frags(true) == 1 => return Some(format!("to_text gives nothing for {t:?}")),
        _ => {}
    }
    match (&c.bin, v) {
        (Some((s, _)), Node::Bin(t)) if s == t => {}
        (Some((s, _)), Node::Seq(b)) if b.len() == s.len() && b.iter().zip(s).all(|(a, b)| *a == Node::Scalar(Ev::U8(*b))) => {}
        (Some((s, _)), _) => return Some(format!("to_binary gives {s:?} for {v:?}")),
        (None, Node::Bin(t)) if !wrapped && borrowed && frags(false) == 1 => return Some(format!("to_binary gives nothing for {t:?}")),
        _ => {}
    }
    {
        let first = evs.iter().find(|e| !matches!(e, Ev::Hint(_)));
        let want = match first {
            Some(Ev::Tag(m) | Ev::TaggedBegin(m) | Ev::EnumBegin(m) | Ev::RecBegin(m, _) | Ev::TupBegin(m, _) | Ev::RTBegin(m, _)) => m.tag.clone(),
            Some(e) if int(e).is_some() || matches!(e, Ev::F32(_) | Ev::F64(_)) => Some(sval::tags::NUMBER),
            _ => None,
        };
        if c.tag != want {
            return Some(format!("tag() is {:?} but the value streams as {want:?}", c.tag));
        }
    }
    None
}

/// A history over one value: stream it again and again, by any route, failing at any call, and convert it in between.
fn history<V: sval::Value>(t: &mut Tape, st: &mut Stats, v: &V, class: bool, full: &[Ev], steps: u64, cut: &dyn Fn(u64) -> Vec<Ev>) -> Res {
    proto::check(full).map_err(|e| fail("harness", format!("the model isn't well formed: {e}")))?;
    let n = 1 + t.draw(4);
    for i in 0..n {
        let k = t.draw(8);
        let fault = if i + 1 == n { Fault::None } else { Fault::draw(t, full.len() as u64, steps, st) };
        let fault = if steps == 0 && fault.producer().is_some() { Fault::None } else { fault };
        let mut r = Rec::new(fault.consumer());
        let (res, fired) = ctx::producing(fault.producer(), || stream_any(k, v, &mut r));
        if !class {
            r.evs = unborrow(std::mem::take(&mut r.evs));
        }
        let comp = |e: Vec<Ev>| if matches!(k, 2 | 6) || !class { unborrow(e) } else { e };
        st.state(&(shape(full), k, fault));
        if fault == Fault::None {
            if let Err(e) = proto::check(&r.evs) {
                return Err(fail("not-well-formed", e).with("route", k).text("got", &show(&r.evs)).text("expected", &show(full)));
            }
        }
        judge_events(&comp(full.to_vec()), &|| comp(cut(fault.producer().unwrap_or(0))), fault, fired, &r, &res)
            .map_err(|e| e.with("streaming", i).with("route", k).with("fault", fault).text("expected", &show(full)).text("got", &show(&r.evs)))?;
        if t.draw(4) == 3 {
            let c = conv(v);
            st.hit("probe.conversions");
            if let Some(d) = conversions(&if class { full.to_vec() } else { unborrow(full.to_vec()) }, &c) {
                return Err(fail("conversions", d).text("events", &show(full)));
            }
        }
    }
    Ok(())
}

fn item<T: Item>(t: &mut Tape, st: &mut Stats) -> Res {
    let c = gen::Cfg::swarm(t);
    let v = T::arb(&mut Gen::new(t, c));
    let mut full = vec![];
    // a failing Display has no say in what the data is
    v.want(&mut full);
    st.sample(|| format!("{}: {}", std::any::type_name::<T>(), show(&full)));
    // values of the gallery take no steps of their own unless they write through `Display`
    history(t, st, &v, T::CLASS, &full, 0, &|_| vec![]).map_err(|e| e.text("type", std::any::type_name::<T>()))
}

macro_rules! gallery {
    ($($t:ty,)+) => {
        const GALLERY: &[fn(&mut Tape, &mut Stats) -> Res] = &[$(item::<$t>),+];
    };
}
gallery! {
    u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, (), sval::Null, char, String, Box<str>,
    Box<Box<u8>>, Option<()>, Option<Option<u8>>, Option<bool>, Option<Box<str>>, Option<char>, Option<f32>,
    Vec<u8>, Vec<String>, Vec<Vec<Option<i16>>>, Box<[bool]>, [u8; 0], [String; 1], [[u8; 2]; 2], [Option<char>; 7],
    BTreeMap<String, u8>, BTreeMap<i64, Vec<bool>>, BTreeMap<Vec<u8>, BTreeMap<bool, ()>>, BTreeMap<Option<char>, (u8,)>,
    HashMap<String, Option<u8>, FixedState>, HashMap<(u8, char), [u8; 1], FixedState>,
    (u8,), (String, Option<u8>), (u8, (u8, bool), ()), (u8, u16, u32, u64, i8, i16, i32, i64, bool, char, String, f64),
    MapOf<String, u8>, MapOf<u8, Vec<MapOf<bool, char>>>, Bytes, Option<Bytes>, ByteArr<0>, ByteArr<5>,
    Json, Shown, FmtDebug, FmtDisplay, SvalDisplay, Buf, BufB, Held<Vec<Option<String>>>, Held<Mixed>, Held<Life<'static, char, 2>>, Held<Bytes>,
    Refs<String>, Refs<Mixed>,
    Raw, RawEnum, Life<'static, u8, 3>, Life<'static, Bare<u8, bool>, 0>, SkipFirst, SkipTup, SkipAll, Braces, Parens, Consts,
    LabelledTup, PlainTup, PlainRec, NewT<u8>, NewT<Option<NewT<String>>>, Clear<u8>, Clear<Option<Clear<String>>>, Clear<Mixed>,
    Mixed, Discs, Dynamic, Vec<Dynamic>, Option<Dynamic>, Bare<String, u8>, Bare<Vec<Mixed>, char>, BTreeMap<String, Bare<Raw, u8>>,
}

include!("shapes.rs");

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let kind = t.draw(20);
    if kind > 15 {
        st.hit("value.derived");
        let k = t.draw(SHAPES.len());
        return SHAPES[k](t, st);
    }
    if kind == 15 {
        // a value of the user's own that is one scalar: its conversions are the defaults
        st.hit("value.scalar");
        let mut c = gen::Cfg::swarm(t);
        c.real = false;
        let text = t.draw(2) == 1;
        let mut g = Gen::new(t, c);
        let mut s = if text { g.sub(0) } else { let e = g.scalar(); Script::call(vec![e]) };
        for _ in 0..t.draw(3) {
            let how = HOWS[t.draw(HOWS.len())];
            s = Script { ops: vec![Op::Sub(how, Box::new(s))] };
        }
        let (full, _, steps) = s.events_until(None);
        st.sample(|| show(&full));
        return history(t, st, &s, true, &full, steps, &|k| s.events_until(Some(k)).0).map_err(|v| v.with("script", &s));
    }
    if kind < 8 {
        st.hit("value.gallery");
        let k = t.draw(GALLERY.len());
        return GALLERY[k](t, st);
    }
    st.hit("value.real");
    let mut c = gen::Cfg::swarm(t);
    c.derived = true;
    let depth = c.depth;
    let mut ops = vec![];
    let leaf = t.draw(4) == 3;
    Gen::new(t, c).real(depth, leaf, &mut ops);
    let s = Script { ops };
    let (full, _, steps) = s.events_until(None);
    st.sample(|| show(&full));
    let r = match &s.ops[0] {
        Op::Real(_, r) => r,
        _ => return history(t, st, &s, true, &full, steps, &|k| s.events_until(Some(k)).0).map_err(|v| v.with("script", &s)),
    };
    let r: &Real = r;
    let expand = |k: Option<u64>| {
        let mut x = X { out: vec![], computed: false, step: 0, fail_at: k.unwrap_or(u64::MAX) };
        let _ = r.expand(&mut x);
        (x.out, x.step)
    };
    let (full, steps) = expand(None);
    history(t, st, r, true, &full, steps, &|k| expand(Some(k)).0).map_err(|v| v.with("value", r))
}
