//! Values whose `sval::Value` implementation is the project's own, and what they must stream.

use crate::ctx;
use crate::derived::{self, with_d, D};
use crate::ev::*;
use crate::script::*;
#[cfg(feature = "full")]
use std::collections::{BTreeMap, HashMap};
use std::fmt;

/// Deterministic hasher, so a map's iteration order is a function of the run alone.
#[derive(Clone, Default, Debug)]
pub struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub type FixedState = std::hash::BuildHasherDefault<Fnv>;

/// A `Display` that writes in pieces, each from short-lived memory, and may fail part way.
#[derive(Clone, Debug)]
pub struct Frags(pub Vec<String>);

impl fmt::Display for Frags {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for s in &self.0 {
            if ctx::pstep_fails() {
                return Err(fmt::Error);
            }
            ctx::lend_str(s, |s| f.write_str(s))?;
        }
        Ok(())
    }
}

impl Frags {
    fn expand(&self, x: &mut X) -> Result<(), Stop> {
        for s in &self.0 {
            x.step()?;
            x.push(Ev::Text(s.clone(), P::C));
        }
        Ok(())
    }
}

/// Text or binary delivered as parts of one piece of memory.
#[derive(Clone, Debug)]
pub struct Parts {
    pub all: Vec<u8>,
    pub parts: Vec<(usize, usize)>,
    pub text: bool,
    pub size: bool,
}

impl Parts {
    fn len(&self) -> Option<usize> {
        if self.size {
            Some(self.parts.iter().map(|p| p.1 - p.0).sum())
        } else {
            None
        }
    }
    fn expand(&self, x: &mut X) -> Result<(), Stop> {
        x.push(if self.text { Ev::TextBegin(self.len()) } else { Ev::BinBegin(self.len()) });
        for (a, b) in &self.parts {
            x.step()?;
            let s = &self.all[*a..*b];
            x.push_raw(match self.text {
                true => Ev::Text(std::str::from_utf8(s).unwrap().to_owned(), P::B(s.as_ptr() as usize)),
                false => Ev::Bin(s.to_owned(), P::B(s.as_ptr() as usize)),
            });
        }
        x.push(if self.text { Ev::TextEnd } else { Ev::BinEnd });
        Ok(())
    }
}

impl sval::Value for Parts {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        if self.text {
            s.text_begin(self.len())?;
        } else {
            s.binary_begin(self.len())?;
        }
        for (a, b) in &self.parts {
            ctx::pstep()?;
            let p = &self.all[*a..*b];
            if self.text {
                s.text_fragment(std::str::from_utf8(p).unwrap())?;
            } else {
                s.binary_fragment(p)?;
            }
        }
        if self.text {
            s.text_end()
        } else {
            s.binary_end()
        }
    }
}

macro_rules! tuples {
    ($($name:ident $n:literal ($($i:tt $t:ident),+);)+) => {
        pub enum Tup { $($name(Box<($($t,)+)>),)+ }
        impl Clone for Tup {
            fn clone(&self) -> Tup {
                Tup::new(self.items().into_iter().cloned().collect())
            }
        }
        impl fmt::Debug for Tup {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Debug::fmt(&self.items(), f)
            }
        }
        impl Tup {
            pub fn new(mut v: Vec<Script>) -> Tup {
                v.truncate(16);
                let n = v.len();
                let mut it = v.into_iter();
                match n {
                    $($n => Tup::$name(Box::new(($({ let v: $t = it.next().unwrap(); v },)+))),)+
                    _ => unreachable!(),
                }
            }
            fn items(&self) -> Vec<&Script> {
                match self { $(Tup::$name(t) => vec![$(&t.$i),+],)+ }
            }
            fn items_mut(&mut self) -> Vec<&mut Script> {
                match self { $(Tup::$name(t) => vec![$(&mut t.$i),+],)+ }
            }
        }
        macro_rules! with_tup {
            ($d:expr, $v:ident => $e:expr) => { match $d { $(Tup::$name($v) => { let $v = &**$v; $e })+ } };
        }
        pub fn stream_ref_tuple<'sval, S: sval::Stream<'sval> + ?Sized>(s: &mut S, r: &[sval_ref::Ref<&'sval Script>]) -> sval::Result {
            match r.len() {
                $($n => sval_ref::stream_ref(s, ($({ let v: sval_ref::Ref<&'sval $t> = r[$i]; v },)+)),)+
                _ => unreachable!(),
            }
        }
    };
}
type T = Script;
tuples! {
    T1 1 (0 T);
    T2 2 (0 T, 1 T);
    T3 3 (0 T, 1 T, 2 T);
    T4 4 (0 T, 1 T, 2 T, 3 T);
    T5 5 (0 T, 1 T, 2 T, 3 T, 4 T);
    T6 6 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T);
    T7 7 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T);
    T8 8 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T);
    T9 9 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T);
    T10 10 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T);
    T11 11 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T);
    T12 12 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T, 11 T);
    T13 13 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T, 11 T, 12 T);
    T14 14 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T, 11 T, 12 T, 13 T);
    T15 15 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T, 11 T, 12 T, 13 T, 14 T);
    T16 16 (0 T, 1 T, 2 T, 3 T, 4 T, 5 T, 6 T, 7 T, 8 T, 9 T, 10 T, 11 T, 12 T, 13 T, 14 T, 15 T);
}

#[derive(Clone, Debug)]
pub enum Real {
    Unit,
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Str2(Box<str>),
    Display(Frags),
    /// `sval::stream_display`
    StreamDisplay(Frags),
    /// text_begin + `sval::stream_display_fragments` + text_end
    DisplayFragments(Frags),
    /// `sval::stream_number`
    Number(Frags),
    OptText(Option<String>),
    OptI32(Option<i32>),
    Opt(Option<Script>),
    Slice(Vec<Script>),
    Vec(Vec<Script>),
    Bytes(Vec<u8>),
    Arr0,
    Arr1([Box<Script>; 1]),
    Arr3([Box<Script>; 3]),
    Tup(Tup),
    MapSlice(Vec<(Script, Script)>),
    #[cfg(feature = "full")]
    BTree(BTreeMap<String, Script>),
    #[cfg(feature = "full")]
    Hash(HashMap<String, Script, FixedState>),
    BinSlice(Vec<u8>),
    BinArr0([u8; 0]),
    BinArr3([u8; 3]),
    Derived(D),
    Flat(crate::flat::Flat),
    Parts(Parts),
    /// A serde value, bridged.
    #[cfg(feature = "full")]
    Serde(crate::ser::SV),
}

pub fn expand_str(x: &mut X, s: &str) {
    x.push(Ev::TextBegin(Some(s.len())));
    x.push_raw(Ev::Text(s.to_owned(), P::B(s.as_ptr() as usize)));
    x.push(Ev::TextEnd);
}

pub fn some() -> Meta {
    Meta { tag: Some(sval::tags::RUST_OPTION_SOME), label: Some(L::ident("Some")), index: Some(I::offset(1)) }
}

pub fn none() -> Meta {
    Meta { tag: Some(sval::tags::RUST_OPTION_NONE), label: Some(L::ident("None")), index: Some(I::offset(0)) }
}

pub fn expand_opt(x: &mut X, o: &Option<Script>) -> Result<(), Stop> {
    match o {
        Some(s) => {
            x.push(Ev::TaggedBegin(some()));
            x.script(s)?;
            x.push(Ev::TaggedEnd(some()));
        }
        None => x.push(Ev::Tag(none())),
    }
    Ok(())
}

fn constant(x: &mut X, f: impl FnOnce(&mut X) -> Result<(), Stop>) -> Result<(), Stop> {
    x.push(Ev::TaggedBegin(Meta::tag(sval::tags::CONSTANT_SIZE)));
    f(x)?;
    x.push(Ev::TaggedEnd(Meta::tag(sval::tags::CONSTANT_SIZE)));
    Ok(())
}

fn bin(x: &mut X, b: &[u8]) {
    x.push(Ev::BinBegin(Some(b.len())));
    x.push_raw(Ev::Bin(b.to_owned(), P::B(b.as_ptr() as usize)));
    x.push(Ev::BinEnd);
}

fn str_map<'a>(x: &mut X, m: impl ExactSizeIterator<Item = (&'a String, &'a Script)>) -> Result<(), Stop> {
    x.push(Ev::MapBegin(Some(m.len())));
    for (k, v) in m {
        x.push(Ev::MapKB);
        expand_str(x, k);
        x.push(Ev::MapKE);
        x.push(Ev::MapVB);
        x.script(v)?;
        x.push(Ev::MapVE);
    }
    x.push(Ev::MapEnd);
    Ok(())
}

impl Real {
    pub fn expand(&self, x: &mut X) -> Result<(), Stop> {
        match self {
            Real::Unit => x.push(Ev::Tag(Meta::tag(sval::tags::RUST_UNIT))),
            Real::Null => x.push(Ev::Null),
            Real::Bool(v) => x.push(Ev::Bool(*v)),
            Real::U8(v) => x.push(Ev::U8(*v)),
            Real::U16(v) => x.push(Ev::U16(*v)),
            Real::U32(v) => x.push(Ev::U32(*v)),
            Real::U64(v) => x.push(Ev::U64(*v)),
            Real::U128(v) => x.push(Ev::U128(*v)),
            Real::I8(v) => x.push(Ev::I8(*v)),
            Real::I16(v) => x.push(Ev::I16(*v)),
            Real::I32(v) => x.push(Ev::I32(*v)),
            Real::I64(v) => x.push(Ev::I64(*v)),
            Real::I128(v) => x.push(Ev::I128(*v)),
            Real::F32(v) => x.push(Ev::F32(v.to_bits())),
            Real::F64(v) => x.push(Ev::F64(v.to_bits())),
            Real::Char(c) => {
                x.push(Ev::TextBegin(Some(c.len_utf8())));
                x.push(Ev::Text(c.to_string(), P::C));
                x.push(Ev::TextEnd);
            }
            Real::Str(s) => expand_str(x, s),
            Real::Str2(s) => expand_str(x, s),
            Real::Display(f) | Real::StreamDisplay(f) | Real::DisplayFragments(f) => {
                x.push(Ev::TextBegin(None));
                f.expand(x)?;
                x.push(Ev::TextEnd);
            }
            Real::Number(f) => {
                x.push(Ev::TaggedBegin(Meta::tag(sval::tags::NUMBER)));
                x.push(Ev::TextBegin(None));
                f.expand(x)?;
                x.push(Ev::TextEnd);
                x.push(Ev::TaggedEnd(Meta::tag(sval::tags::NUMBER)));
            }
            Real::OptText(o) => match o {
                Some(s) => {
                    x.push(Ev::TaggedBegin(some()));
                    expand_str(x, s);
                    x.push(Ev::TaggedEnd(some()));
                }
                None => x.push(Ev::Tag(none())),
            },
            Real::OptI32(o) => match o {
                Some(s) => {
                    x.push(Ev::TaggedBegin(some()));
                    x.push(Ev::I32(*s));
                    x.push(Ev::TaggedEnd(some()));
                }
                None => x.push(Ev::Tag(none())),
            },
            Real::Opt(o) => expand_opt(x, o)?,
            Real::Slice(v) | Real::Vec(v) => x.seq(v.iter())?,
            Real::Bytes(v) => {
                x.push(Ev::SeqBegin(Some(v.len())));
                for b in v {
                    x.push(Ev::SeqVB);
                    x.push(Ev::U8(*b));
                    x.push(Ev::SeqVE);
                }
                x.push(Ev::SeqEnd);
            }
            Real::Arr0 => constant(x, |x| x.seq([].iter()))?,
            Real::Arr1(v) => constant(x, |x| x.seq(v.iter().map(|v| &**v)))?,
            Real::Arr3(v) => constant(x, |x| x.seq(v.iter().map(|v| &**v)))?,
            Real::Tup(t) => x.tuple(t.items().into_iter())?,
            Real::MapSlice(v) => {
                x.push(Ev::MapBegin(Some(v.len())));
                for (k, v) in v {
                    x.push(Ev::MapKB);
                    x.script(k)?;
                    x.push(Ev::MapKE);
                    x.push(Ev::MapVB);
                    x.script(v)?;
                    x.push(Ev::MapVE);
                }
                x.push(Ev::MapEnd);
            }
            #[cfg(feature = "full")]
            Real::BTree(m) => str_map(x, m.iter())?,
            #[cfg(feature = "full")]
            Real::Hash(m) => str_map(x, m.iter())?,
            Real::BinSlice(b) => bin(x, b),
            Real::BinArr0(b) => constant(x, |x| Ok(bin(x, b)))?,
            Real::BinArr3(b) => constant(x, |x| Ok(bin(x, b)))?,
            Real::Derived(d) => d.expand(x)?,
            Real::Flat(f) => f.expand(x)?,
            Real::Parts(p) => p.expand(x)?,
            #[cfg(feature = "full")]
            Real::Serde(v) => v.expand(x)?,
        }
        Ok(())
    }
}

impl Poison for Real {
    fn poison(&mut self) {
        match self {
            Real::Str(s) => ctx::poison_str(s),
            Real::Str2(s) => ctx::poison_bytes(unsafe { s.as_bytes_mut() }),
            Real::Display(f) | Real::StreamDisplay(f) | Real::DisplayFragments(f) | Real::Number(f) => {
                f.0.iter_mut().for_each(ctx::poison_str)
            }
            Real::OptText(Some(s)) => ctx::poison_str(s),
            Real::Opt(Some(s)) => s.poison(),
            Real::Slice(v) | Real::Vec(v) => v.iter_mut().for_each(|s| s.poison()),
            Real::Arr1(v) => v.iter_mut().for_each(|s| s.poison()),
            Real::Arr3(v) => v.iter_mut().for_each(|s| s.poison()),
            Real::Tup(t) => t.items_mut().into_iter().for_each(|s| s.poison()),
            Real::MapSlice(v) => v.iter_mut().for_each(|(k, v)| {
                k.poison();
                v.poison()
            }),
            #[cfg(feature = "full")]
            Real::BTree(m) => {
                for (mut k, mut v) in std::mem::take(m) {
                    ctx::poison_str(&mut k);
                    v.poison();
                    ctx::bury(k);
                    ctx::bury(v);
                }
            }
            #[cfg(feature = "full")]
            Real::Hash(m) => {
                for (mut k, mut v) in m.drain() {
                    ctx::poison_str(&mut k);
                    v.poison();
                    ctx::bury(k);
                    ctx::bury(v);
                }
            }
            Real::Bytes(b) | Real::BinSlice(b) => ctx::poison_bytes(b),
            Real::BinArr3(b) => ctx::poison_bytes(b),
            Real::Derived(d) => d.scripts().into_iter().for_each(|s| s.poison()),
            Real::Flat(f) => f.poison(),
            Real::Parts(p) => ctx::poison_bytes(&mut p.all),
            #[cfg(feature = "full")]
            Real::Serde(v) => v.poison(),
            _ => {}
        }
    }
}

macro_rules! with_real {
    ($d:expr, $v:ident => $e:expr) => {
        match $d {
            Real::Unit => { let $v = &(); $e }
            Real::Null => { let $v = &sval::Null; $e }
            Real::Bool($v) => $e,
            Real::U8($v) => $e,
            Real::U16($v) => $e,
            Real::U32($v) => $e,
            Real::U64($v) => $e,
            Real::U128($v) => $e,
            Real::I8($v) => $e,
            Real::I16($v) => $e,
            Real::I32($v) => $e,
            Real::I64($v) => $e,
            Real::I128($v) => $e,
            Real::F32($v) => $e,
            Real::F64($v) => $e,
            Real::Char($v) => $e,
            #[cfg(feature = "full")]
            Real::Str($v) => $e,
            #[cfg(not(feature = "full"))]
            Real::Str($v) => { let $v = &**$v; $e }
            Real::Str2($v) => { let $v = &**$v; $e }
            Real::Display($v) => { let $v = sval::Display::new_borrowed($v); $e }
            Real::StreamDisplay($v) | Real::DisplayFragments($v) | Real::Number($v) => { let $v = sval::Display::new_borrowed($v); $e }
            #[cfg(feature = "full")]
            Real::OptText($v) => $e,
            #[cfg(not(feature = "full"))]
            Real::OptText(_) => { let $v = &Option::<i32>::None; $e }
            Real::OptI32($v) => $e,
            Real::Opt($v) => $e,
            Real::Slice($v) => { let $v = &$v[..]; $e }
            #[cfg(feature = "full")]
            Real::Vec($v) => $e,
            #[cfg(not(feature = "full"))]
            Real::Vec($v) => { let $v = &$v[..]; $e }
            Real::Bytes($v) => { let $v = &$v[..]; $e }
            Real::Arr0 => { let $v = &[] as &[i32; 0]; $e }
            #[cfg(feature = "full")]
            Real::Arr1($v) => $e,
            #[cfg(feature = "full")]
            Real::Arr3($v) => $e,
            #[cfg(not(feature = "full"))]
            Real::Arr1(_) | Real::Arr3(_) => unreachable!(),
            Real::Tup(t) => with_tup!(t, $v => $e),
            Real::MapSlice($v) => { let $v = sval::MapSlice::new($v); $e }
            #[cfg(feature = "full")]
            Real::BTree($v) => $e,
            #[cfg(feature = "full")]
            Real::Hash($v) => $e,
            Real::BinSlice($v) => { let $v = sval::BinarySlice::new($v); $e }
            Real::BinArr0($v) => { let $v = sval::BinaryArray::new($v); $e }
            Real::BinArr3($v) => { let $v = sval::BinaryArray::new($v); $e }
            Real::Derived(d) => with_d!(d, $v => $e),
            Real::Flat($v) => $e,
            Real::Parts($v) => $e,
            #[cfg(feature = "full")]
            Real::Serde($v) => { let $v = sval_serde::ToValue::new_borrowed($v); $e }
        }
    };
}

impl sval::Value for Real {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval::Stream as _;
        crate::erase::erased(s, |s| match self {
            Real::StreamDisplay(f) => sval::stream_display(s, f),
            Real::DisplayFragments(f) => {
                s.text_begin(None)?;
                sval::stream_display_fragments(s, f)?;
                s.text_end()
            }
            Real::Number(f) => sval::stream_number(s, f),
            r => with_real!(r, v => sval::Value::stream(v, s)),
        })
    }
    fn tag(&self) -> Option<sval::Tag> {
        match self {
            Real::Number(_) => sval::default_value::tag(self),
            r => with_real!(r, v => sval::Value::tag(v)),
        }
    }
    fn to_bool(&self) -> Option<bool> { with_real!(self, v => sval::Value::to_bool(v)) }
    fn to_f32(&self) -> Option<f32> { with_real!(self, v => sval::Value::to_f32(v)) }
    fn to_f64(&self) -> Option<f64> { with_real!(self, v => sval::Value::to_f64(v)) }
    fn to_i8(&self) -> Option<i8> { with_real!(self, v => sval::Value::to_i8(v)) }
    fn to_i16(&self) -> Option<i16> { with_real!(self, v => sval::Value::to_i16(v)) }
    fn to_i32(&self) -> Option<i32> { with_real!(self, v => sval::Value::to_i32(v)) }
    fn to_i64(&self) -> Option<i64> { with_real!(self, v => sval::Value::to_i64(v)) }
    fn to_i128(&self) -> Option<i128> { with_real!(self, v => sval::Value::to_i128(v)) }
    fn to_u8(&self) -> Option<u8> { with_real!(self, v => sval::Value::to_u8(v)) }
    fn to_u16(&self) -> Option<u16> { with_real!(self, v => sval::Value::to_u16(v)) }
    fn to_u32(&self) -> Option<u32> { with_real!(self, v => sval::Value::to_u32(v)) }
    fn to_u64(&self) -> Option<u64> { with_real!(self, v => sval::Value::to_u64(v)) }
    fn to_u128(&self) -> Option<u128> { with_real!(self, v => sval::Value::to_u128(v)) }
    fn to_text(&self) -> Option<&str> { with_real!(self, v => sval::Value::to_text(v)) }
    fn to_binary(&self) -> Option<&[u8]> { with_real!(self, v => sval::Value::to_binary(v)) }
}

#[allow(unused)]
fn _unused() {
    let _ = derived::SHAPES;
}
