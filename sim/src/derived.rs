//! Values whose implementation comes from `#[derive(Value)]`, and what they must stream.

use crate::ctx;
use crate::ev::*;
use crate::flat::{self, Er, Target::*};
use crate::script::*;
use sval_derive::Value;

#[cfg(feature = "full")]
pub type Txt = String;

/// Text for when there's no allocator.
#[cfg(not(feature = "full"))]
#[derive(Clone, Debug)]
pub struct Txt(String);
#[cfg(not(feature = "full"))]
impl From<String> for Txt {
    fn from(s: String) -> Txt {
        Txt(s)
    }
}
#[cfg(not(feature = "full"))]
impl std::ops::Deref for Txt {
    type Target = String;
    fn deref(&self) -> &String {
        &self.0
    }
}
#[cfg(not(feature = "full"))]
impl std::ops::DerefMut for Txt {
    fn deref_mut(&mut self) -> &mut String {
        &mut self.0
    }
}
#[cfg(not(feature = "full"))]
impl sval::Value for Txt {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.0.as_str().stream(s)
    }
}

pub const DT_C: sval::Tag = sval::Tag::new("DT_C");
pub const DT_F: sval::Tag = sval::Tag::new("DT_F");
pub const DT_D: sval::Tag = sval::Tag::new("DT_D");

#[derive(Value, Clone, Debug)]
pub struct Named {
    a: Script,
    b: Script,
    c: i32,
}

#[derive(Value, Clone, Debug)]
#[sval(tag = "DT_C", label = "re named\"", index = 7)]
pub struct NamedAttr {
    #[sval(label = "q\"uote", index = 4)]
    a: Script,
    #[sval(tag = "DT_F", data_tag = "DT_D")]
    b: Script,
    #[sval(skip)]
    #[allow(dead_code)]
    hidden: i32,
    #[sval(index = 9)]
    c: Txt,
    d: bool,
}

#[derive(Value, Clone, Debug)]
#[sval(unindexed_fields)]
pub struct Rec3 {
    a: Script,
    #[sval(tag = "DT_F", label = "x y")]
    b: Script,
    #[sval(data_tag = "DT_D")]
    c: u8,
}

#[derive(Value, Clone, Debug)]
#[sval(unlabeled_fields)]
pub struct Tup3 {
    a: Script,
    #[sval(tag = "DT_F", index = 5)]
    b: Script,
    #[sval(data_tag = "DT_D")]
    c: u8,
}

#[derive(Value, Clone, Debug)]
#[sval(unlabeled_fields, unindexed_fields, tag = "DT_C")]
pub struct Seq2 {
    a: Script,
    #[sval(data_tag = "DT_D")]
    b: Script,
}

#[derive(Value, Clone, Debug)]
pub struct TupS(Script, i64, Script);

#[derive(Value, Clone, Debug)]
pub struct Newtype(Script);

#[derive(Value, Clone, Debug)]
#[sval(transparent)]
pub struct Transparent(Script);

#[derive(Value, Clone, Debug)]
#[sval(tag = "DT_C", label = "nt", index = 3)]
pub struct NewtypeAttr(Script);

#[derive(Value, Clone, Debug)]
pub struct Unit;

#[derive(Value, Clone, Debug)]
#[sval(tag = "DT_C", label = "u n", index = 2)]
pub struct UnitAttr;

#[derive(Value, Clone, Debug)]
pub enum En {
    A,
    B(Script),
    C(Script, i32),
    D { a: Script, b: Script },
    #[sval(tag = "DT_F")]
    F,
    H {},
    #[sval(unlabeled_fields)]
    J { a: Script, b: Script },
    #[sval(unindexed_fields)]
    K { a: Script },
    #[sval(tag = "DT_F", label = "ee", index = 40)]
    E { #[sval(label = "zz", index = 6)] a: Script },
    #[sval(index = -3)]
    G,
}

#[derive(Value, Clone, Debug)]
#[sval(tag = "DT_C", label = "EnA", index = 1)]
pub enum EnAttr {
    #[sval(label = "la", index = 11)]
    A(Script),
    B { #[sval(tag = "DT_F", data_tag = "DT_D")] x: Script, #[sval(skip)] #[allow(dead_code)] y: i32 },
}

#[derive(Value, Clone, Debug)]
#[sval(dynamic)]
pub enum Dyn {
    A(Script),
    B(Script, Script),
    C { a: Script },
    D,
}

#[derive(Value, Clone, Debug)]
pub enum Disc {
    A = 3,
    B,
    C = 10,
}

#[derive(Value, Clone, Debug)]
#[sval(unlabeled_variants)]
pub enum EnNoLabel {
    A(Script),
    B,
}

#[derive(Value, Clone, Debug)]
#[sval(unindexed_variants)]
pub enum EnNoIndex {
    A(Script),
    B,
}

#[derive(Value, Clone, Debug)]
pub struct Gen<T, U: Clone> where T: Clone {
    t: T,
    u: Option<U>,
}

#[derive(Value, Clone, Debug)]
pub struct FlNamed {
    a: Script,
    #[sval(flatten)]
    b: Er,
    c: i32,
}

#[derive(Value, Clone, Debug)]
#[sval(unindexed_fields, tag = "DT_C")]
pub struct FlRec {
    #[sval(flatten)]
    a: Er,
    b: u8,
    #[sval(flatten)]
    c: Er,
}

#[derive(Value, Clone, Debug)]
pub struct FlTup(Script, #[sval(flatten)] Er, i64);

#[derive(Value, Clone, Debug)]
#[sval(unlabeled_fields, unindexed_fields)]
pub struct FlSeq {
    a: Script,
    #[sval(flatten)]
    b: Er,
}

#[derive(Value, Clone, Debug)]
pub enum FlEn {
    A { #[sval(flatten)] a: Option<Er>, b: bool },
    B(#[sval(flatten)] Er, u8),
}

#[derive(Clone, Debug)]
pub enum D {
    FlNamed(FlNamed),
    FlRec(FlRec),
    FlTup(FlTup),
    FlSeq(FlSeq),
    FlEn(FlEn),
    Named(Named),
    NamedAttr(NamedAttr),
    Rec3(Rec3),
    Tup3(Tup3),
    Seq2(Seq2),
    TupS(TupS),
    Newtype(Newtype),
    Transparent(Transparent),
    NewtypeAttr(NewtypeAttr),
    Unit(Unit),
    UnitAttr(UnitAttr),
    En(En),
    EnAttr(EnAttr),
    Dyn(Dyn),
    Disc(Disc),
    EnNoLabel(EnNoLabel),
    EnNoIndex(EnNoIndex),
    Gen(Gen<Script, Script>),
}

/// Number of derived shapes (enum variants counted separately).
pub const SHAPES: usize = 42;
/// The shapes with flattened fields.
pub const FLAT: std::ops::Range<usize> = 34..40;

pub fn build(shape: usize, n: i64, txt: String, mut s: impl FnMut() -> Script) -> D {
    match shape {
        0 => D::Named(Named { a: s(), b: s(), c: n as i32 }),
        1 => D::NamedAttr(NamedAttr { a: s(), b: s(), hidden: n as i32, c: txt.into(), d: n % 2 == 0 }),
        2 => D::Rec3(Rec3 { a: s(), b: s(), c: n as u8 }),
        3 => D::Tup3(Tup3 { a: s(), b: s(), c: n as u8 }),
        4 => D::Seq2(Seq2 { a: s(), b: s() }),
        5 => D::TupS(TupS(s(), n, s())),
        6 => D::Newtype(Newtype(s())),
        7 => D::Transparent(Transparent(s())),
        8 => D::NewtypeAttr(NewtypeAttr(s())),
        9 => D::Unit(Unit),
        10 => D::UnitAttr(UnitAttr),
        11 => D::En(En::A),
        12 => D::En(En::B(s())),
        13 => D::En(En::C(s(), n as i32)),
        14 => D::En(En::D { a: s(), b: s() }),
        15 => D::En(En::E { a: s() }),
        16 => D::En(En::F),
        17 => D::En(En::G),
        18 => D::En(En::H {}),
        19 => D::EnAttr(EnAttr::A(s())),
        20 => D::EnAttr(EnAttr::B { x: s(), y: n as i32 }),
        21 => D::Dyn(Dyn::A(s())),
        22 => D::Dyn(Dyn::B(s(), s())),
        23 => D::Dyn(Dyn::C { a: s() }),
        24 => D::EnNoLabel(EnNoLabel::A(s())),
        25 => D::EnNoLabel(EnNoLabel::B),
        26 => D::EnNoIndex(EnNoIndex::A(s())),
        27 => D::EnNoIndex(EnNoIndex::B),
        28 => D::En(En::J { a: s(), b: s() }),
        29 => D::En(En::K { a: s() }),
        30 => D::Dyn(Dyn::D),
        31 => D::Disc(Disc::A),
        32 => D::Disc(Disc::B),
        33 => D::Disc(Disc::C),
        34 => D::FlNamed(FlNamed { a: s(), b: Er(s()), c: n as i32 }),
        35 => D::FlRec(FlRec { a: Er(s()), b: n as u8, c: Er(s()) }),
        36 => D::FlTup(FlTup(s(), Er(s()), n)),
        37 => D::FlSeq(FlSeq { a: s(), b: Er(s()) }),
        38 => D::FlEn(FlEn::A { a: if n % 3 == 0 { None } else { Some(Er(s())) }, b: n % 2 == 0 }),
        39 => D::FlEn(FlEn::B(Er(s()), n as u8)),
        _ => D::Gen(Gen { t: s(), u: if n % 2 == 0 { None } else { Some(s()) } }),
    }
}

fn ix(val: i128) -> I {
    I { val, tag: None }
}

fn m(tag: Option<sval::Tag>, label: Option<L>, index: Option<I>) -> Meta {
    Meta { tag, label, index }
}

enum F<'a> {
    S(&'a Script),
    E(Ev),
    Str(&'a String),
    Opt(&'a Option<Script>),
}

struct Field<'a> {
    tag: Option<sval::Tag>,
    data: bool,
    label: L,
    index: I,
    v: F<'a>,
}

fn f<'a>(label: &'static str, index: usize, v: F<'a>) -> Field<'a> {
    Field { tag: None, data: false, label: L::ident(label), index: I::offset(index), v }
}

fn value(x: &mut X, data: bool, v: &F) -> Result<(), Stop> {
    if data {
        x.push(Ev::TaggedBegin(Meta::tag(DT_D)));
    }
    match v {
        F::S(s) => x.script(s)?,
        F::E(e) => x.push(e.clone()),
        F::Str(s) => crate::real::expand_str(x, s),
        F::Opt(s) => crate::real::expand_opt(x, s)?,
    }
    if data {
        x.push(Ev::TaggedEnd(Meta::tag(DT_D)));
    }
    Ok(())
}

fn rt(x: &mut X, meta: Meta, fs: &[Field]) -> Result<(), Stop> {
    x.push(Ev::RTBegin(meta.clone(), Some(fs.len())));
    for f in fs {
        x.push(Ev::RTVB(f.tag.clone(), f.label.clone(), f.index.clone()));
        value(x, f.data, &f.v)?;
        x.push(Ev::RTVE(f.tag.clone(), f.label.clone(), f.index.clone()));
    }
    x.push(Ev::RTEnd(meta));
    Ok(())
}

fn rec(x: &mut X, meta: Meta, fs: &[Field]) -> Result<(), Stop> {
    x.push(Ev::RecBegin(meta.clone(), Some(fs.len())));
    for f in fs {
        x.push(Ev::RecVB(f.tag.clone(), f.label.clone()));
        value(x, f.data, &f.v)?;
        x.push(Ev::RecVE(f.tag.clone(), f.label.clone()));
    }
    x.push(Ev::RecEnd(meta));
    Ok(())
}

fn tup(x: &mut X, meta: Meta, fs: &[Field]) -> Result<(), Stop> {
    x.push(Ev::TupBegin(meta.clone(), Some(fs.len())));
    for f in fs {
        x.push(Ev::TupVB(f.tag.clone(), f.index.clone()));
        value(x, f.data, &f.v)?;
        x.push(Ev::TupVE(f.tag.clone(), f.index.clone()));
    }
    x.push(Ev::TupEnd(meta));
    Ok(())
}

fn tagged(x: &mut X, meta: Meta, s: &Script) -> Result<(), Stop> {
    x.push(Ev::TaggedBegin(meta.clone()));
    x.script(s)?;
    x.push(Ev::TaggedEnd(meta));
    Ok(())
}

fn en(x: &mut X, meta: Meta, v: impl FnOnce(&mut X) -> Result<(), Stop>) -> Result<(), Stop> {
    x.push(Ev::EnumBegin(meta.clone()));
    v(x)?;
    x.push(Ev::EnumEnd(meta));
    Ok(())
}

fn id(s: &'static str) -> Meta {
    m(None, Some(L::ident(s)), None)
}

fn var(s: &'static str, i: usize) -> Meta {
    m(None, Some(L::ident(s)), Some(I::offset(i)))
}

impl D {
    pub fn expand(&self, x: &mut X) -> Result<(), Stop> {
        match self {
            D::Named(v) => rt(x, id("Named"), &[
                f("a", 0, F::S(&v.a)), f("b", 1, F::S(&v.b)), f("c", 2, F::E(Ev::I32(v.c))),
            ]),
            D::NamedAttr(v) => rt(x, m(Some(DT_C), Some(L::stat("re named\"")), Some(ix(7))), &[
                Field { tag: None, data: false, label: L::stat("q\"uote"), index: ix(4), v: F::S(&v.a) },
                Field { tag: Some(DT_F), data: true, label: L::ident("b"), index: ix(5), v: F::S(&v.b) },
                Field { tag: None, data: false, label: L::ident("c"), index: ix(9), v: F::Str(&v.c) },
                Field { tag: None, data: false, label: L::ident("d"), index: ix(10), v: F::E(Ev::Bool(v.d)) },
            ]),
            D::Rec3(v) => rec(x, id("Rec3"), &[
                f("a", 0, F::S(&v.a)),
                Field { tag: Some(DT_F), data: false, label: L::stat("x y"), index: ix(0), v: F::S(&v.b) },
                Field { tag: None, data: true, label: L::ident("c"), index: ix(0), v: F::E(Ev::U8(v.c)) },
            ]),
            D::Tup3(v) => tup(x, id("Tup3"), &[
                f("a", 0, F::S(&v.a)),
                Field { tag: Some(DT_F), data: false, label: L::ident(""), index: ix(5), v: F::S(&v.b) },
                Field { tag: None, data: true, label: L::ident(""), index: ix(6), v: F::E(Ev::U8(v.c)) },
            ]),
            D::Seq2(v) => {
                let meta = m(Some(DT_C), Some(L::ident("Seq2")), None);
                x.push(Ev::TaggedBegin(meta.clone()));
                x.push(Ev::SeqBegin(Some(2)));
                x.push(Ev::SeqVB);
                x.script(&v.a)?;
                x.push(Ev::SeqVE);
                x.push(Ev::SeqVB);
                value(x, true, &F::S(&v.b))?;
                x.push(Ev::SeqVE);
                x.push(Ev::SeqEnd);
                x.push(Ev::TaggedEnd(meta));
                Ok(())
            }
            D::TupS(v) => tup(x, id("TupS"), &[
                f("", 0, F::S(&v.0)), f("", 1, F::E(Ev::I64(v.1))), f("", 2, F::S(&v.2)),
            ]),
            D::Newtype(v) => tagged(x, id("Newtype"), &v.0),
            D::Transparent(v) => x.script(&v.0),
            D::NewtypeAttr(v) => tagged(x, m(Some(DT_C), Some(L::stat("nt")), Some(ix(3))), &v.0),
            D::Unit(_) => {
                x.push(Ev::Tag(id("Unit")));
                Ok(())
            }
            D::UnitAttr(_) => {
                x.push(Ev::Tag(m(Some(DT_C), Some(L::stat("u n")), Some(ix(2)))));
                Ok(())
            }
            D::En(v) => en(x, id("En"), |x| match v {
                En::A => Ok(x.push(Ev::Tag(var("A", 0)))),
                En::B(s) => tagged(x, var("B", 1), s),
                En::C(s, n) => tup(x, var("C", 2), &[f("", 0, F::S(s)), f("", 1, F::E(Ev::I32(*n)))]),
                En::D { a, b } => rt(x, var("D", 3), &[f("a", 0, F::S(a)), f("b", 1, F::S(b))]),
                En::F => Ok(x.push(Ev::Tag(Meta { tag: Some(DT_F), ..var("F", 4) }))),
                En::H {} => rt(x, var("H", 5), &[]),
                En::J { a, b } => tup(x, var("J", 6), &[f("", 0, F::S(a)), f("", 1, F::S(b))]),
                En::K { a } => rec(x, var("K", 7), &[f("a", 0, F::S(a))]),
                En::E { a } => rt(x, m(Some(DT_F), Some(L::stat("ee")), Some(ix(40))), &[
                    Field { tag: None, data: false, label: L::stat("zz"), index: ix(6), v: F::S(a) },
                ]),
                En::G => Ok(x.push(Ev::Tag(m(None, Some(L::ident("G")), Some(ix(-3)))))),
            }),
            D::EnAttr(v) => en(x, m(Some(DT_C), Some(L::stat("EnA")), Some(ix(1))), |x| match v {
                EnAttr::A(s) => tagged(x, m(None, Some(L::stat("la")), Some(ix(11))), s),
                EnAttr::B { x: s, .. } => rt(x, var("B", 0), &[
                    Field { tag: Some(DT_F), data: true, label: L::ident("x"), index: I::offset(0), v: F::S(s) },
                ]),
            }),
            D::Dyn(v) => match v {
                Dyn::A(s) => x.script(s),
                Dyn::B(a, b) => tup(x, Meta::default(), &[f("", 0, F::S(a)), f("", 1, F::S(b))]),
                Dyn::C { a } => rt(x, Meta::default(), &[f("a", 0, F::S(a))]),
                Dyn::D => Ok(x.push(Ev::Tag(id("D")))),
            },
            D::Disc(v) => en(x, id("Disc"), |x| {
                let (l, i) = match v {
                    Disc::A => ("A", 3),
                    Disc::B => ("B", 4),
                    Disc::C => ("C", 10),
                };
                Ok(x.push(Ev::Tag(m(None, Some(L::ident(l)), Some(ix(i))))))
            }),
            D::EnNoLabel(v) => en(x, id("EnNoLabel"), |x| match v {
                EnNoLabel::A(s) => tagged(x, m(None, None, Some(I::offset(0))), s),
                EnNoLabel::B => Ok(x.push(Ev::Tag(m(None, None, Some(I::offset(1)))))),
            }),
            D::EnNoIndex(v) => en(x, id("EnNoIndex"), |x| match v {
                EnNoIndex::A(s) => tagged(x, m(None, Some(L::ident("A")), None), s),
                EnNoIndex::B => Ok(x.push(Ev::Tag(m(None, Some(L::ident("B")), None)))),
            }),
            D::FlNamed(v) => {
                let meta = id("FlNamed");
                flat::begin(x, RT, &meta);
                x.push(Ev::RTVB(None, L::ident("a"), I::offset(0)));
                x.script(&v.a)?;
                x.push(Ev::RTVE(None, L::ident("a"), I::offset(0)));
                let n = flat::splice(x, RT, 1, &v.b.0)?;
                let i = I { val: n, tag: Some(sval::tags::VALUE_OFFSET) };
                x.push(Ev::RTVB(None, L::ident("c"), i.clone()));
                x.push(Ev::I32(v.c));
                x.push(Ev::RTVE(None, L::ident("c"), i));
                flat::end(x, RT, &meta);
                Ok(())
            }
            D::FlRec(v) => {
                let meta = m(Some(DT_C), Some(L::ident("FlRec")), None);
                flat::begin(x, Rec, &meta);
                let n = flat::splice(x, Rec, 0, &v.a.0)?;
                x.push(Ev::RecVB(None, L::ident("b")));
                x.push(Ev::U8(v.b));
                x.push(Ev::RecVE(None, L::ident("b")));
                flat::splice(x, Rec, n, &v.c.0)?;
                flat::end(x, Rec, &meta);
                Ok(())
            }
            D::FlTup(v) => {
                let meta = id("FlTup");
                flat::begin(x, Tup, &meta);
                x.push(Ev::TupVB(None, I::offset(0)));
                x.script(&v.0)?;
                x.push(Ev::TupVE(None, I::offset(0)));
                let n = flat::splice(x, Tup, 1, &v.1 .0)?;
                let i = I { val: n, tag: Some(sval::tags::VALUE_OFFSET) };
                x.push(Ev::TupVB(None, i.clone()));
                x.push(Ev::I64(v.2));
                x.push(Ev::TupVE(None, i));
                flat::end(x, Tup, &meta);
                Ok(())
            }
            D::FlSeq(v) => {
                x.push(Ev::TaggedBegin(id("FlSeq")));
                flat::begin(x, Seq, &Meta::default());
                x.push(Ev::SeqVB);
                x.script(&v.a)?;
                x.push(Ev::SeqVE);
                flat::splice(x, Seq, 0, &v.b.0)?;
                flat::end(x, Seq, &Meta::default());
                x.push(Ev::TaggedEnd(id("FlSeq")));
                Ok(())
            }
            D::FlEn(v) => en(x, id("FlEn"), |x| match v {
                FlEn::A { a, b } => {
                    let meta = var("A", 0);
                    flat::begin(x, RT, &meta);
                    let n = match a {
                        None => 0,
                        Some(s) => flat::splice(x, RT, 0, &s.0)?,
                    };
                    let i = I { val: n, tag: Some(sval::tags::VALUE_OFFSET) };
                    x.push(Ev::RTVB(None, L::ident("b"), i.clone()));
                    x.push(Ev::Bool(*b));
                    x.push(Ev::RTVE(None, L::ident("b"), i));
                    flat::end(x, RT, &meta);
                    Ok(())
                }
                FlEn::B(s, b) => {
                    let meta = var("B", 1);
                    flat::begin(x, Tup, &meta);
                    let n = flat::splice(x, Tup, 0, &s.0)?;
                    let i = I { val: n, tag: Some(sval::tags::VALUE_OFFSET) };
                    x.push(Ev::TupVB(None, i.clone()));
                    x.push(Ev::U8(*b));
                    x.push(Ev::TupVE(None, i));
                    flat::end(x, Tup, &meta);
                    Ok(())
                }
            }),
            D::Gen(v) => rt(x, id("Gen"), &[f("t", 0, F::S(&v.t)), f("u", 1, F::Opt(&v.u))]),
        }
    }

    pub fn scripts(&mut self) -> Vec<&mut Script> {
        match self {
            D::Named(v) => vec![&mut v.a, &mut v.b],
            D::NamedAttr(v) => {
                ctx::poison_str(&mut v.c);
                vec![&mut v.a, &mut v.b]
            }
            D::Rec3(v) => vec![&mut v.a, &mut v.b],
            D::Tup3(v) => vec![&mut v.a, &mut v.b],
            D::Seq2(v) => vec![&mut v.a, &mut v.b],
            D::TupS(v) => vec![&mut v.0, &mut v.2],
            D::Newtype(v) => vec![&mut v.0],
            D::Transparent(v) => vec![&mut v.0],
            D::NewtypeAttr(v) => vec![&mut v.0],
            D::Unit(_) | D::UnitAttr(_) => vec![],
            D::En(v) => match v {
                En::B(s) | En::C(s, _) | En::E { a: s } | En::K { a: s } => vec![s],
                En::D { a, b } | En::J { a, b } => vec![a, b],
                _ => vec![],
            },
            D::EnAttr(v) => match v {
                EnAttr::A(s) | EnAttr::B { x: s, .. } => vec![s],
            },
            D::Dyn(v) => match v {
                Dyn::A(s) | Dyn::C { a: s } => vec![s],
                Dyn::B(a, b) => vec![a, b],
                Dyn::D => vec![],
            },
            D::Disc(_) => vec![],
            D::EnNoLabel(v) => match v {
                EnNoLabel::A(s) => vec![s],
                _ => vec![],
            },
            D::EnNoIndex(v) => match v {
                EnNoIndex::A(s) => vec![s],
                _ => vec![],
            },
            D::FlNamed(v) => vec![&mut v.a, &mut v.b.0],
            D::FlRec(v) => vec![&mut v.a.0, &mut v.c.0],
            D::FlTup(v) => vec![&mut v.0, &mut v.1 .0],
            D::FlSeq(v) => vec![&mut v.a, &mut v.b.0],
            D::FlEn(v) => match v {
                FlEn::A { a, .. } => a.iter_mut().map(|s| &mut s.0).collect(),
                FlEn::B(s, _) => vec![&mut s.0],
            },
            D::Gen(v) => {
                let mut r = vec![&mut v.t];
                if let Some(u) = &mut v.u {
                    r.push(u);
                }
                r
            }
        }
    }
}

macro_rules! with_d {
    ($d:expr, $v:ident => $e:expr) => {
        match $d {
            D::FlNamed($v) => $e,
            D::FlRec($v) => $e,
            D::FlTup($v) => $e,
            D::FlSeq($v) => $e,
            D::FlEn($v) => $e,
            D::Named($v) => $e,
            D::NamedAttr($v) => $e,
            D::Rec3($v) => $e,
            D::Tup3($v) => $e,
            D::Seq2($v) => $e,
            D::TupS($v) => $e,
            D::Newtype($v) => $e,
            D::Transparent($v) => $e,
            D::NewtypeAttr($v) => $e,
            D::Unit($v) => $e,
            D::UnitAttr($v) => $e,
            D::En($v) => $e,
            D::EnAttr($v) => $e,
            D::Dyn($v) => $e,
            D::Disc($v) => $e,
            D::EnNoLabel($v) => $e,
            D::EnNoIndex($v) => $e,
            D::Gen($v) => $e,
        }
    };
}
pub(crate) use with_d;
