//! An object-safe stream of our own, so that the code of every simulated and real value is
//! compiled for one consumer type only.

use crate::script::{How, Kid};
use sval::{Index, Label, Result, Stream, Tag};

type T<'a> = Option<&'a Tag>;
type Lb<'a> = Option<&'a Label<'a>>;
type Ix<'a> = Option<&'a Index>;
type Sz = Option<usize>;

macro_rules! calls {
    ($($v:ident $f:ident ($($a:ident: $t:ty),*);)*) => {
        pub enum Call<'a, 'sval> {
            $($v($($t),*),)*
            Frag(&'sval str),
            BinFrag(&'sval [u8]),
            Deliver(How, Kid<'sval>),
        }

        impl<'a, 'sval> Call<'a, 'sval> {
            fn fire<S: Stream<'sval> + ?Sized>(self, s: &mut S) -> Result {
                match self {
                    $(Call::$v($($a),*) => s.$f($($a),*),)*
                    Call::Frag(t) => s.text_fragment(t),
                    Call::BinFrag(t) => s.binary_fragment(t),
                    Call::Deliver(how, v) => v.deliver(how, s),
                }
            }
        }

        pub trait Erased<'sval> {
            fn call(&mut self, c: Call<'_, 'sval>) -> Result;
        }

        struct Er<'s, S: ?Sized>(&'s mut S);

        impl<'s, 'sval, S: Stream<'sval> + ?Sized> Erased<'sval> for Er<'s, S> {
            fn call(&mut self, c: Call<'_, 'sval>) -> Result {
                c.fire(&mut *self.0)
            }
        }

        /// The only consumer type real values are compiled for.
        pub struct E<'s, 'sval>(&'s mut (dyn Erased<'sval> + 's));

    };
}

calls! {
    Null null();
    Bool bool(v: bool);
    U8 u8(v: u8);
    U16 u16(v: u16);
    U32 u32(v: u32);
    U64 u64(v: u64);
    U128 u128(v: u128);
    I8 i8(v: i8);
    I16 i16(v: i16);
    I32 i32(v: i32);
    I64 i64(v: i64);
    I128 i128(v: i128);
    F32 f32(v: f32);
    F64 f64(v: f64);
    TextBegin text_begin(n: Sz);
    FragC text_fragment_computed(t: &'a str);
    TextEnd text_end();
    BinBegin binary_begin(n: Sz);
    BinFragC binary_fragment_computed(t: &'a [u8]);
    BinEnd binary_end();
    SeqBegin seq_begin(n: Sz);
    SeqVB seq_value_begin();
    SeqVE seq_value_end();
    SeqEnd seq_end();
    MapBegin map_begin(n: Sz);
    MapKB map_key_begin();
    MapKE map_key_end();
    MapVB map_value_begin();
    MapVE map_value_end();
    MapEnd map_end();
    Tag tag(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    Hint tag_hint(t: &'a Tag);
    TaggedBegin tagged_begin(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    TaggedEnd tagged_end(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    EnumBegin enum_begin(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    EnumEnd enum_end(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    RecBegin record_begin(t: T<'a>, l: Lb<'a>, i: Ix<'a>, n: Sz);
    RecVB record_value_begin(t: T<'a>, l: &'a Label<'a>);
    RecVE record_value_end(t: T<'a>, l: &'a Label<'a>);
    RecEnd record_end(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    TupBegin tuple_begin(t: T<'a>, l: Lb<'a>, i: Ix<'a>, n: Sz);
    TupVB tuple_value_begin(t: T<'a>, i: &'a Index);
    TupVE tuple_value_end(t: T<'a>, i: &'a Index);
    TupEnd tuple_end(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
    RTBegin record_tuple_begin(t: T<'a>, l: Lb<'a>, i: Ix<'a>, n: Sz);
    RTVB record_tuple_value_begin(t: T<'a>, l: &'a Label<'a>, i: &'a Index);
    RTVE record_tuple_value_end(t: T<'a>, l: &'a Label<'a>, i: &'a Index);
    RTEnd record_tuple_end(t: T<'a>, l: Lb<'a>, i: Ix<'a>);
}

impl<'s, 'sval> E<'s, 'sval> {
    /// Call the stream's own `value` or `value_computed`.
    pub fn deliver(&mut self, how: How, v: Kid<'sval>) -> Result {
        self.0.call(Call::Deliver(how, v))
    }
}

pub fn erased<'sval, S: Stream<'sval> + ?Sized, R>(s: &mut S, f: impl FnOnce(&mut E<'_, 'sval>) -> R) -> R {
    f(&mut E(&mut Er(s)))
}

impl<'s, 'sval> Stream<'sval> for E<'s, 'sval> {
    fn null(&mut self) -> Result { self.0.call(Call::Null()) }
    fn bool(&mut self, v: bool) -> Result { self.0.call(Call::Bool(v)) }
    fn u8(&mut self, v: u8) -> Result { self.0.call(Call::U8(v)) }
    fn u16(&mut self, v: u16) -> Result { self.0.call(Call::U16(v)) }
    fn u32(&mut self, v: u32) -> Result { self.0.call(Call::U32(v)) }
    fn u64(&mut self, v: u64) -> Result { self.0.call(Call::U64(v)) }
    fn u128(&mut self, v: u128) -> Result { self.0.call(Call::U128(v)) }
    fn i8(&mut self, v: i8) -> Result { self.0.call(Call::I8(v)) }
    fn i16(&mut self, v: i16) -> Result { self.0.call(Call::I16(v)) }
    fn i32(&mut self, v: i32) -> Result { self.0.call(Call::I32(v)) }
    fn i64(&mut self, v: i64) -> Result { self.0.call(Call::I64(v)) }
    fn i128(&mut self, v: i128) -> Result { self.0.call(Call::I128(v)) }
    fn f32(&mut self, v: f32) -> Result { self.0.call(Call::F32(v)) }
    fn f64(&mut self, v: f64) -> Result { self.0.call(Call::F64(v)) }
    fn text_begin(&mut self, n: Sz) -> Result { self.0.call(Call::TextBegin(n)) }
    fn text_fragment_computed(&mut self, t: &str) -> Result { self.0.call(Call::FragC(t)) }
    fn text_end(&mut self) -> Result { self.0.call(Call::TextEnd()) }
    fn binary_begin(&mut self, n: Sz) -> Result { self.0.call(Call::BinBegin(n)) }
    fn binary_fragment_computed(&mut self, t: &[u8]) -> Result { self.0.call(Call::BinFragC(t)) }
    fn binary_end(&mut self) -> Result { self.0.call(Call::BinEnd()) }
    fn seq_begin(&mut self, n: Sz) -> Result { self.0.call(Call::SeqBegin(n)) }
    fn seq_value_begin(&mut self) -> Result { self.0.call(Call::SeqVB()) }
    fn seq_value_end(&mut self) -> Result { self.0.call(Call::SeqVE()) }
    fn seq_end(&mut self) -> Result { self.0.call(Call::SeqEnd()) }
    fn map_begin(&mut self, n: Sz) -> Result { self.0.call(Call::MapBegin(n)) }
    fn map_key_begin(&mut self) -> Result { self.0.call(Call::MapKB()) }
    fn map_key_end(&mut self) -> Result { self.0.call(Call::MapKE()) }
    fn map_value_begin(&mut self) -> Result { self.0.call(Call::MapVB()) }
    fn map_value_end(&mut self) -> Result { self.0.call(Call::MapVE()) }
    fn map_end(&mut self) -> Result { self.0.call(Call::MapEnd()) }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::Tag(t, l, i)) }
    fn tag_hint(&mut self, t: &Tag) -> Result { self.0.call(Call::Hint(t)) }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::TaggedBegin(t, l, i)) }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::TaggedEnd(t, l, i)) }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::EnumBegin(t, l, i)) }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::EnumEnd(t, l, i)) }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Sz) -> Result { self.0.call(Call::RecBegin(t, l, i, n)) }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.call(Call::RecVB(t, l)) }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.call(Call::RecVE(t, l)) }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::RecEnd(t, l, i)) }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Sz) -> Result { self.0.call(Call::TupBegin(t, l, i, n)) }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.call(Call::TupVB(t, i)) }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.call(Call::TupVE(t, i)) }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::TupEnd(t, l, i)) }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Sz) -> Result { self.0.call(Call::RTBegin(t, l, i, n)) }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.call(Call::RTVB(t, l, i)) }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.call(Call::RTVE(t, l, i)) }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.call(Call::RTEnd(t, l, i)) }
    fn text_fragment(&mut self, t: &'sval str) -> Result { self.0.call(Call::Frag(t)) }
    fn binary_fragment(&mut self, t: &'sval [u8]) -> Result { self.0.call(Call::BinFrag(t)) }
}

/// A value that only ever streams into `E`.
pub struct Opaque<V>(pub V);

impl<V: sval::Value> sval::Value for Opaque<V> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        erased(s, |s| self.0.stream(s))
    }
}
