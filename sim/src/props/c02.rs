//! C02: consumers of the basic data model see the documented lowering of richer constructs.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval::{tags, Index, Label, Stream, Tag, Value};

pub mod m {
    pub const U8: u32 = 1;
    pub const U16: u32 = 2;
    pub const U32: u32 = 4;
    pub const U64: u32 = 8;
    pub const U128: u32 = 16;
    pub const I8: u32 = 32;
    pub const I16: u32 = 64;
    pub const I32: u32 = 128;
    pub const I128: u32 = 256;
    pub const F32: u32 = 512;
    pub const FRAG: u32 = 1 << 10;
    pub const BIN: u32 = 1 << 11;
    pub const BINFRAG: u32 = 1 << 12;
    pub const MAP: u32 = 1 << 13;
    pub const TAGGED: u32 = 1 << 14;
    pub const ENUM: u32 = 1 << 15;
    pub const TAG: u32 = 1 << 16;
    pub const HINT: u32 = 1 << 17;
    pub const REC: u32 = 1 << 18;
    pub const TUP: u32 = 1 << 19;
    pub const RT: u32 = 1 << 20;
    pub const VAL: u32 = 1 << 21;
    pub const COUNT: usize = 22;
    pub const NUMS: u32 = 1023;
}

fn number(v: String, k: u32, out: &mut Vec<Ev>) {
    let meta = Meta::tag(tags::NUMBER);
    lower(Ev::TaggedBegin(meta.clone()), k, out);
    lower(Ev::TextBegin(None), k, out);
    lower(Ev::Text(v, P::C), k, out);
    lower(Ev::TextEnd, k, out);
    lower(Ev::TaggedEnd(meta), k, out);
}

fn label(l: &L, k: u32, out: &mut Vec<Ev>) {
    lower(Ev::TextBegin(Some(l.text.len())), k, out);
    lower(Ev::Text(l.text.clone(), if l.stat.is_some() { P::B(0) } else { P::C }), k, out);
    lower(Ev::TextEnd, k, out);
}

/// The documented lowering of one call for a consumer implementing `k`.
pub fn lower(e: Ev, k: u32, out: &mut Vec<Ev>) {
    use Ev::*;
    let has = |b: u32| k & b != 0;
    let pair = |n: i128| I { val: n, tag: None };
    match e {
        U8(v) if !has(m::U8) => lower(U16(v as u16), k, out),
        U16(v) if !has(m::U16) => lower(U32(v as u32), k, out),
        U32(v) if !has(m::U32) => lower(U64(v as u64), k, out),
        U64(v) if !has(m::U64) => lower(U128(v as u128), k, out),
        U128(v) if !has(m::U128) => match i64::try_from(v) {
            Ok(v) => out.push(I64(v)),
            Err(_) => number(v.to_string(), k, out),
        },
        I8(v) if !has(m::I8) => lower(I16(v as i16), k, out),
        I16(v) if !has(m::I16) => lower(I32(v as i32), k, out),
        I32(v) if !has(m::I32) => out.push(I64(v as i64)),
        I128(v) if !has(m::I128) => match i64::try_from(v) {
            Ok(v) => out.push(I64(v)),
            Err(_) => number(v.to_string(), k, out),
        },
        F32(v) if !has(m::F32) => out.push(F64((f32::from_bits(v) as f64).to_bits())),
        Text(t, P::B(_)) if !has(m::FRAG) => out.push(Text(t, P::C)),
        Bin(b, p) => {
            if has(m::BIN) {
                let p = if has(m::BINFRAG) { p } else { P::C };
                out.push(Bin(b, p))
            } else {
                for b in b {
                    out.push(SeqVB);
                    lower(U8(b), k, out);
                    out.push(SeqVE);
                }
            }
        }
        BinBegin(n) if !has(m::BIN) => out.push(SeqBegin(n)),
        BinEnd if !has(m::BIN) => out.push(SeqEnd),
        MapBegin(n) if !has(m::MAP) => out.push(SeqBegin(n)),
        MapKB if !has(m::MAP) => {
            out.push(SeqVB);
            lower(TupBegin(Meta::default(), Some(2)), k, out);
            lower(TupVB(None, pair(0)), k, out);
        }
        MapKE if !has(m::MAP) => lower(TupVE(None, pair(0)), k, out),
        MapVB if !has(m::MAP) => lower(TupVB(None, pair(1)), k, out),
        MapVE if !has(m::MAP) => {
            lower(TupVE(None, pair(1)), k, out);
            lower(TupEnd(Meta::default()), k, out);
            out.push(SeqVE);
        }
        MapEnd if !has(m::MAP) => out.push(SeqEnd),
        EnumBegin(x) if !has(m::ENUM) => lower(TaggedBegin(x), k, out),
        EnumEnd(x) if !has(m::ENUM) => lower(TaggedEnd(x), k, out),
        TaggedBegin(_) | TaggedEnd(_) if !has(m::TAGGED) => {}
        Hint(_) if !has(m::HINT) => {}
        Tag(x) if !has(m::TAG) => {
            lower(TaggedBegin(x.clone()), k, out);
            match (&x.tag, &x.label) {
                (Some(t), _) if *t == tags::RUST_OPTION_NONE => out.push(Null),
                (_, Some(l)) => label(l, k, out),
                _ => out.push(Null),
            }
            lower(TaggedEnd(x), k, out);
        }
        RecBegin(x, n) if !has(m::REC) => {
            lower(TaggedBegin(x), k, out);
            lower(MapBegin(n), k, out);
        }
        RecVB(_, l) if !has(m::REC) => {
            lower(MapKB, k, out);
            label(&l, k, out);
            lower(MapKE, k, out);
            lower(MapVB, k, out);
        }
        RecVE(..) if !has(m::REC) => lower(MapVE, k, out),
        RecEnd(x) if !has(m::REC) => {
            lower(MapEnd, k, out);
            lower(TaggedEnd(x), k, out);
        }
        TupBegin(x, n) if !has(m::TUP) => {
            lower(TaggedBegin(x), k, out);
            out.push(SeqBegin(n));
        }
        TupVB(..) if !has(m::TUP) => out.push(SeqVB),
        TupVE(..) if !has(m::TUP) => out.push(SeqVE),
        TupEnd(x) if !has(m::TUP) => {
            out.push(SeqEnd);
            lower(TaggedEnd(x), k, out);
        }
        RTBegin(x, n) if !has(m::RT) => lower(RecBegin(x, n), k, out),
        RTVB(t, l, _) if !has(m::RT) => lower(RecVB(t, l), k, out),
        RTVE(t, l, _) if !has(m::RT) => lower(RecVE(t, l), k, out),
        RTEnd(x) if !has(m::RT) => lower(RecEnd(x), k, out),
        e => out.push(e),
    }
}

pub fn lower_all(evs: &[Ev], k: u32) -> Vec<Ev> {
    let mut out = vec![];
    for e in evs {
        lower(e.clone(), k, &mut out);
    }
    out
}

macro_rules! required {
    () => {
        fn null(&mut self) -> sval::Result { self.rec.ev(Ev::Null) }
        fn bool(&mut self, v: bool) -> sval::Result { self.rec.ev(Ev::Bool(v)) }
        fn i64(&mut self, v: i64) -> sval::Result { self.rec.ev(Ev::I64(v)) }
        fn f64(&mut self, v: f64) -> sval::Result { self.rec.ev(Ev::F64(v.to_bits())) }
        fn text_begin(&mut self, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::TextBegin(n)) }
        fn text_fragment_computed(&mut self, s: &str) -> sval::Result { self.rec.ev(Ev::Text(s.to_owned(), P::C)) }
        fn text_end(&mut self) -> sval::Result { self.rec.ev(Ev::TextEnd) }
        fn seq_begin(&mut self, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::SeqBegin(n)) }
        fn seq_value_begin(&mut self) -> sval::Result { self.rec.ev(Ev::SeqVB) }
        fn seq_value_end(&mut self) -> sval::Result { self.rec.ev(Ev::SeqVE) }
        fn seq_end(&mut self) -> sval::Result { self.rec.ev(Ev::SeqEnd) }
    };
}

/// A consumer that implements a run-time subset of the optional methods and defers the others to `sval::default_stream`.
pub struct Masked {
    pub rec: Rec,
    pub k: u32,
}

macro_rules! fwd {
    ($($bit:ident $f:ident ($($a:ident: $t:ty),*) => $e:expr;)*) => {
        $(fn $f(&mut self, $($a: $t),*) -> sval::Result {
            if self.k & m::$bit != 0 {
                self.rec.ev($e)
            } else {
                sval::default_stream::$f(self, $($a),*)
            }
        })*
    };
}

type T<'a> = Option<&'a Tag>;
type Lb<'a> = Option<&'a Label<'a>>;
type Ix<'a> = Option<&'a Index>;

impl<'sval> Stream<'sval> for Masked {
    required!();
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> sval::Result {
        if self.k & m::VAL != 0 {
            v.stream(self)
        } else {
            sval::default_stream::value(self, v)
        }
    }
    fn binary_fragment(&mut self, s: &'sval [u8]) -> sval::Result {
        if self.k & m::BIN != 0 && self.k & m::BINFRAG != 0 {
            self.rec.ev(Ev::Bin(s.to_owned(), P::B(s.as_ptr() as usize)))
        } else {
            sval::default_stream::binary_fragment(self, s)
        }
    }
    fwd! {
        FRAG text_fragment(s: &'sval str) => Ev::Text(s.to_owned(), P::B(s.as_ptr() as usize));
        BIN binary_begin(n: Option<usize>) => Ev::BinBegin(n);
        BIN binary_fragment_computed(s: &[u8]) => Ev::Bin(s.to_owned(), P::C);
        BIN binary_end() => Ev::BinEnd;
        U8 u8(v: u8) => Ev::U8(v);
        U16 u16(v: u16) => Ev::U16(v);
        U32 u32(v: u32) => Ev::U32(v);
        U64 u64(v: u64) => Ev::U64(v);
        U128 u128(v: u128) => Ev::U128(v);
        I8 i8(v: i8) => Ev::I8(v);
        I16 i16(v: i16) => Ev::I16(v);
        I32 i32(v: i32) => Ev::I32(v);
        I128 i128(v: i128) => Ev::I128(v);
        F32 f32(v: f32) => Ev::F32(v.to_bits());
        MAP map_begin(n: Option<usize>) => Ev::MapBegin(n);
        MAP map_key_begin() => Ev::MapKB;
        MAP map_key_end() => Ev::MapKE;
        MAP map_value_begin() => Ev::MapVB;
        MAP map_value_end() => Ev::MapVE;
        MAP map_end() => Ev::MapEnd;
        ENUM enum_begin(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::EnumBegin(Meta::of(t, l, i));
        ENUM enum_end(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::EnumEnd(Meta::of(t, l, i));
        TAGGED tagged_begin(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::TaggedBegin(Meta::of(t, l, i));
        TAGGED tagged_end(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::TaggedEnd(Meta::of(t, l, i));
        TAG tag(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::Tag(Meta::of(t, l, i));
        HINT tag_hint(t: &Tag) => Ev::Hint(t.clone());
        REC record_begin(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>, n: Option<usize>) => Ev::RecBegin(Meta::of(t, l, i), n);
        REC record_value_begin(t: T<'_>, l: &Label<'_>) => Ev::RecVB(t.cloned(), L::of(l));
        REC record_value_end(t: T<'_>, l: &Label<'_>) => Ev::RecVE(t.cloned(), L::of(l));
        REC record_end(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::RecEnd(Meta::of(t, l, i));
        TUP tuple_begin(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>, n: Option<usize>) => Ev::TupBegin(Meta::of(t, l, i), n);
        TUP tuple_value_begin(t: T<'_>, i: &Index) => Ev::TupVB(t.cloned(), I::of(i));
        TUP tuple_value_end(t: T<'_>, i: &Index) => Ev::TupVE(t.cloned(), I::of(i));
        TUP tuple_end(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::TupEnd(Meta::of(t, l, i));
        RT record_tuple_begin(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>, n: Option<usize>) => Ev::RTBegin(Meta::of(t, l, i), n);
        RT record_tuple_value_begin(t: T<'_>, l: &Label<'_>, i: &Index) => Ev::RTVB(t.cloned(), L::of(l), I::of(i));
        RT record_tuple_value_end(t: T<'_>, l: &Label<'_>, i: &Index) => Ev::RTVE(t.cloned(), L::of(l), I::of(i));
        RT record_tuple_end(t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) => Ev::RTEnd(Meta::of(t, l, i));
    }
}

macro_rules! group {
    (frag) => { fn text_fragment(&mut self, s: &'sval str) -> sval::Result { self.rec.ev(Ev::Text(s.to_owned(), P::B(s.as_ptr() as usize))) } };
    (bin) => {
        fn binary_begin(&mut self, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::BinBegin(n)) }
        fn binary_fragment_computed(&mut self, s: &[u8]) -> sval::Result { self.rec.ev(Ev::Bin(s.to_owned(), P::C)) }
        fn binary_end(&mut self) -> sval::Result { self.rec.ev(Ev::BinEnd) }
    };
    (map) => {
        fn map_begin(&mut self, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::MapBegin(n)) }
        fn map_key_begin(&mut self) -> sval::Result { self.rec.ev(Ev::MapKB) }
        fn map_key_end(&mut self) -> sval::Result { self.rec.ev(Ev::MapKE) }
        fn map_value_begin(&mut self) -> sval::Result { self.rec.ev(Ev::MapVB) }
        fn map_value_end(&mut self) -> sval::Result { self.rec.ev(Ev::MapVE) }
        fn map_end(&mut self) -> sval::Result { self.rec.ev(Ev::MapEnd) }
    };
    (tagged) => {
        fn tagged_begin(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) -> sval::Result { self.rec.ev(Ev::TaggedBegin(Meta::of(t, l, i))) }
        fn tagged_end(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) -> sval::Result { self.rec.ev(Ev::TaggedEnd(Meta::of(t, l, i))) }
    };
    (tup) => {
        fn tuple_begin(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::TupBegin(Meta::of(t, l, i), n)) }
        fn tuple_value_begin(&mut self, t: T<'_>, i: &Index) -> sval::Result { self.rec.ev(Ev::TupVB(t.cloned(), I::of(i))) }
        fn tuple_value_end(&mut self, t: T<'_>, i: &Index) -> sval::Result { self.rec.ev(Ev::TupVE(t.cloned(), I::of(i))) }
        fn tuple_end(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) -> sval::Result { self.rec.ev(Ev::TupEnd(Meta::of(t, l, i))) }
    };
    (rec) => {
        fn record_begin(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>, n: Option<usize>) -> sval::Result { self.rec.ev(Ev::RecBegin(Meta::of(t, l, i), n)) }
        fn record_value_begin(&mut self, t: T<'_>, l: &Label<'_>) -> sval::Result { self.rec.ev(Ev::RecVB(t.cloned(), L::of(l))) }
        fn record_value_end(&mut self, t: T<'_>, l: &Label<'_>) -> sval::Result { self.rec.ev(Ev::RecVE(t.cloned(), L::of(l))) }
        fn record_end(&mut self, t: T<'_>, l: Option<&Label<'_>>, i: Ix<'_>) -> sval::Result { self.rec.ev(Ev::RecEnd(Meta::of(t, l, i))) }
    };
}

macro_rules! fixed {
    ($($n:ident $k:expr => [$($g:ident)*];)*) => {
        $(pub struct $n { pub rec: Rec }
        impl $n { pub const K: u32 = $k; }
        impl<'sval> Stream<'sval> for $n { required!(); $(group!($g);)* })*
    };
}

fixed! {
    Min 0 => [];
    MinText m::FRAG => [frag];
    MinBin m::BIN => [bin];
    MinMap m::MAP => [map];
    MinTagged m::TAGGED => [tagged];
    MinTup m::TUP => [tup];
    MinRec m::REC => [rec];
    Mid m::FRAG | m::MAP | m::TAGGED | m::BIN => [frag map tagged bin];
}

macro_rules! go {
    ($t:ident, $k:expr, $fa:expr, $dyn_:expr, $src:expr, $s:expr, $r:expr) => {{
        let mut c = $t { rec: Rec::new($fa) };
        let res = run_into(&mut c, $dyn_, $src, $s, $r);
        ($t::K, c.rec, res)
    }};
}

fn run_into<'a, S: Stream<'a>>(c: &mut S, layer: usize, src: usize, s: &'a Box<Script>, r: &'a &'a Script) -> sval::Result {
    use super::c01::source;
    match layer {
        0 => source(src, s, r, c),
        1 => source(src, s, r, &mut &mut *c),
        _ => source(src, s, r, &mut (c as &mut dyn sval_dynamic::Stream<'a>)),
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = Box::new(gen::script(t, |c, t| {
        c.crowded(t);
        c.nested_enum = t.draw(3) == 2;
    }));
    let which = t.draw(12);
    let k = if which < 8 {
        0
    } else {
        let mut k = 0;
        for b in 0..m::COUNT {
            if t.draw(2) == 1 {
                k |= 1 << b;
            }
        }
        k
    };
    let src = t.draw(super::c01::SOURCES);
    let layer = t.draw(3);
    let kk = [Min::K, MinText::K, MinBin::K, MinMap::K, MinTagged::K, MinTup::K, MinRec::K, Mid::K].get(which).copied().unwrap_or(k);
    let (evs, _, steps) = s.events_until(None);
    let uncomp = |evs: Vec<Ev>| if super::c01::source_computed(src) { unborrow(evs) } else { evs };
    let full = lower_all(&uncomp(evs), kk);
    let fault = Fault::draw(t, full.len() as u64, steps, st);
    let r: &Script = &s;
    let fa = fault.consumer();
    let ((k, rec, res), fired) = ctx::producing(fault.producer(), || match which {
        0 => go!(Min, 0, fa, layer, src, &s, &r),
        1 => go!(MinText, 0, fa, layer, src, &s, &r),
        2 => go!(MinBin, 0, fa, layer, src, &s, &r),
        3 => go!(MinMap, 0, fa, layer, src, &s, &r),
        4 => go!(MinTagged, 0, fa, layer, src, &s, &r),
        5 => go!(MinTup, 0, fa, layer, src, &s, &r),
        6 => go!(MinRec, 0, fa, layer, src, &s, &r),
        7 => go!(Mid, 0, fa, layer, src, &s, &r),
        _ => {
            let mut c = Masked { rec: Rec::new(fa), k };
            let res = run_into(&mut c, layer, src, &s, &r);
            (k, c.rec, res)
        }
    });
    debug_assert_eq!(k, kk);
    st.state(&(shape(&full), kk, src, layer, fault));
    st.sample(|| format!("consumer={kk:#x} source={src} layer={layer} fault={fault:?}: {}", show(&full)));
    let cx = |v: Violation| {
        v.with("script", &s).with("fault", fault).text("consumer implements", &format!("{kk:#x}")).text("expected", &show(&full)).text("got", &show(&rec.evs))
    };
    judge_events(&full, &|| lower_all(&uncomp(s.events_until(fault.producer()).0), kk), fault, fired, &rec, &res).map_err(cx)?;
    // the lowering is itself well formed
    if fault == Fault::None {
        if let Err(e) = crate::proto::check_loose(&rec.evs) {
            return Err(cx(fail("ill-formed", e)));
        }
    }
    Ok(())
}
