//! C18: sval_test sees and judges exactly the calls a value makes.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Keys};
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sval_test::{Token, TokenBuf};

fn cfg(c: &mut gen::Cfg, t: &mut Tape) {
    c.crowded(t);
    c.keys = [Keys::Any, Keys::Scalar, Keys::Text][t.draw(3)];
    c.json_tags = t.draw(4) == 3;
    c.empty_enum = t.draw(4) == 3;
}

fn label(l: &L) -> sval::Label<'static> {
    l.lend(|l| l.to_owned())
}

type M = (Option<sval::Tag>, Option<sval::Label<'static>>, Option<sval::Index>);
fn meta(m: &Meta) -> M {
    (m.tag.clone(), m.label.as_ref().map(label), m.index.as_ref().map(|i| i.real()))
}

/// The token of a call.
fn token(e: &Ev) -> Token<'_> {
    macro_rules! m {
        ($v:ident, $m:expr) => {{
            let (t, l, i) = meta($m);
            Token::$v(t, l, i)
        }};
        ($v:ident, $m:expr, $n:expr) => {{
            let (t, l, i) = meta($m);
            Token::$v(t, l, i, *$n)
        }};
    }
    match e {
        Ev::Null => Token::Null,
        Ev::Bool(v) => Token::Bool(*v),
        Ev::U8(v) => Token::U8(*v),
        Ev::U16(v) => Token::U16(*v),
        Ev::U32(v) => Token::U32(*v),
        Ev::U64(v) => Token::U64(*v),
        Ev::U128(v) => Token::U128(*v),
        Ev::I8(v) => Token::I8(*v),
        Ev::I16(v) => Token::I16(*v),
        Ev::I32(v) => Token::I32(*v),
        Ev::I64(v) => Token::I64(*v),
        Ev::I128(v) => Token::I128(*v),
        Ev::F32(v) => Token::F32(f32::from_bits(*v)),
        Ev::F64(v) => Token::F64(f64::from_bits(*v)),
        Ev::TextBegin(n) => Token::TextBegin(*n),
        Ev::Text(s, P::B(_)) => Token::TextFragment(s),
        Ev::Text(s, P::C) => Token::TextFragmentComputed(s.clone()),
        Ev::TextEnd => Token::TextEnd,
        Ev::BinBegin(n) => Token::BinaryBegin(*n),
        Ev::Bin(s, P::B(_)) => Token::BinaryFragment(s),
        Ev::Bin(s, P::C) => Token::BinaryFragmentComputed(s.clone()),
        Ev::BinEnd => Token::BinaryEnd,
        Ev::SeqBegin(n) => Token::SeqBegin(*n),
        Ev::SeqVB => Token::SeqValueBegin,
        Ev::SeqVE => Token::SeqValueEnd,
        Ev::SeqEnd => Token::SeqEnd,
        Ev::MapBegin(n) => Token::MapBegin(*n),
        Ev::MapKB => Token::MapKeyBegin,
        Ev::MapKE => Token::MapKeyEnd,
        Ev::MapVB => Token::MapValueBegin,
        Ev::MapVE => Token::MapValueEnd,
        Ev::MapEnd => Token::MapEnd,
        Ev::Hint(t) => Token::TagHint(t.clone()),
        Ev::Tag(m) => m!(Tag, m),
        Ev::TaggedBegin(m) => m!(TaggedBegin, m),
        Ev::TaggedEnd(m) => m!(TaggedEnd, m),
        Ev::EnumBegin(m) => m!(EnumBegin, m),
        Ev::EnumEnd(m) => m!(EnumEnd, m),
        Ev::RecBegin(m, n) => m!(RecordBegin, m, n),
        Ev::RecVB(t, l) => Token::RecordValueBegin(t.clone(), label(l)),
        Ev::RecVE(t, l) => Token::RecordValueEnd(t.clone(), label(l)),
        Ev::RecEnd(m) => m!(RecordEnd, m),
        Ev::TupBegin(m, n) => m!(TupleBegin, m, n),
        Ev::TupVB(t, i) => Token::TupleValueBegin(t.clone(), i.real()),
        Ev::TupVE(t, i) => Token::TupleValueEnd(t.clone(), i.real()),
        Ev::TupEnd(m) => m!(TupleEnd, m),
        Ev::RTBegin(m, n) => m!(RecordTupleBegin, m, n),
        Ev::RTVB(t, l, i) => Token::RecordTupleValueBegin(t.clone(), label(l), i.real()),
        Ev::RTVE(t, l, i) => Token::RecordTupleValueEnd(t.clone(), label(l), i.real()),
        Ev::RTEnd(m) => m!(RecordTupleEnd, m),
    }
}

/// The call a token stands for.
fn call(t: &Token) -> Ev {
    fn m(t: &Option<sval::Tag>, l: &Option<sval::Label<'static>>, i: &Option<sval::Index>) -> Meta {
        Meta::of(t.as_ref(), l.as_ref(), i.as_ref())
    }
    match t {
        Token::Null => Ev::Null,
        Token::Bool(v) => Ev::Bool(*v),
        Token::U8(v) => Ev::U8(*v),
        Token::U16(v) => Ev::U16(*v),
        Token::U32(v) => Ev::U32(*v),
        Token::U64(v) => Ev::U64(*v),
        Token::U128(v) => Ev::U128(*v),
        Token::I8(v) => Ev::I8(*v),
        Token::I16(v) => Ev::I16(*v),
        Token::I32(v) => Ev::I32(*v),
        Token::I64(v) => Ev::I64(*v),
        Token::I128(v) => Ev::I128(*v),
        Token::F32(v) => Ev::F32(v.to_bits()),
        Token::F64(v) => Ev::F64(v.to_bits()),
        Token::TextBegin(n) => Ev::TextBegin(*n),
        Token::TextFragment(s) => Ev::Text((*s).to_owned(), P::B(s.as_ptr() as usize)),
        Token::TextFragmentComputed(s) => Ev::Text(s.clone(), P::C),
        Token::TextEnd => Ev::TextEnd,
        Token::BinaryBegin(n) => Ev::BinBegin(*n),
        Token::BinaryFragment(s) => Ev::Bin((*s).to_owned(), P::B(s.as_ptr() as usize)),
        Token::BinaryFragmentComputed(s) => Ev::Bin(s.clone(), P::C),
        Token::BinaryEnd => Ev::BinEnd,
        Token::SeqBegin(n) => Ev::SeqBegin(*n),
        Token::SeqValueBegin => Ev::SeqVB,
        Token::SeqValueEnd => Ev::SeqVE,
        Token::SeqEnd => Ev::SeqEnd,
        Token::MapBegin(n) => Ev::MapBegin(*n),
        Token::MapKeyBegin => Ev::MapKB,
        Token::MapKeyEnd => Ev::MapKE,
        Token::MapValueBegin => Ev::MapVB,
        Token::MapValueEnd => Ev::MapVE,
        Token::MapEnd => Ev::MapEnd,
        Token::TagHint(t) => Ev::Hint(t.clone()),
        Token::Tag(t, l, i) => Ev::Tag(m(t, l, i)),
        Token::TaggedBegin(t, l, i) => Ev::TaggedBegin(m(t, l, i)),
        Token::TaggedEnd(t, l, i) => Ev::TaggedEnd(m(t, l, i)),
        Token::EnumBegin(t, l, i) => Ev::EnumBegin(m(t, l, i)),
        Token::EnumEnd(t, l, i) => Ev::EnumEnd(m(t, l, i)),
        Token::RecordBegin(t, l, i, n) => Ev::RecBegin(m(t, l, i), *n),
        Token::RecordValueBegin(t, l) => Ev::RecVB(t.clone(), L::of(l)),
        Token::RecordValueEnd(t, l) => Ev::RecVE(t.clone(), L::of(l)),
        Token::RecordEnd(t, l, i) => Ev::RecEnd(m(t, l, i)),
        Token::TupleBegin(t, l, i, n) => Ev::TupBegin(m(t, l, i), *n),
        Token::TupleValueBegin(t, i) => Ev::TupVB(t.clone(), I::of(i)),
        Token::TupleValueEnd(t, i) => Ev::TupVE(t.clone(), I::of(i)),
        Token::TupleEnd(t, l, i) => Ev::TupEnd(m(t, l, i)),
        Token::RecordTupleBegin(t, l, i, n) => Ev::RTBegin(m(t, l, i), *n),
        Token::RecordTupleValueBegin(t, l, i) => Ev::RTVB(t.clone(), L::of(l), I::of(i)),
        Token::RecordTupleValueEnd(t, l, i) => Ev::RTVE(t.clone(), L::of(l), I::of(i)),
        Token::RecordTupleEnd(t, l, i) => Ev::RTEnd(m(t, l, i)),
        t => panic!("unknown token {t:?}"),
    }
}

fn nan(e: &Ev) -> bool {
    match e {
        Ev::F32(v) => f32::from_bits(*v).is_nan(),
        Ev::F64(v) => f64::from_bits(*v).is_nan(),
        _ => false,
    }
}

/// Change one token into a different one.
fn change(e: &mut Ev, t: &mut Tape) -> bool {
    fn size(n: &mut Option<usize>) {
        *n = match *n {
            Some(n) => Some(n + 1),
            None => Some(0),
        };
    }
    fn tag(x: &mut Option<sval::Tag>) {
        *x = match x {
            Some(_) => None,
            None => Some(sval::tags::CONSTANT_SIZE),
        };
    }
    fn meta(m: &mut Meta, t: &mut Tape) {
        match t.draw(3) {
            0 => tag(&mut m.tag),
            1 => match &mut m.label {
                Some(l) => lab(l),
                None => m.label = Some(L::stat("other")),
            },
            _ => match &mut m.index {
                Some(i) => i.val ^= 1,
                None => m.index = Some(I { val: 1, tag: None }),
            },
        }
    }
    fn lab(l: &mut L) {
        l.text.push('x');
        l.stat = None;
    }
    match e {
        Ev::Null | Ev::SeqVB | Ev::SeqVE | Ev::SeqEnd | Ev::MapKB | Ev::MapKE | Ev::MapVB | Ev::MapVE | Ev::MapEnd | Ev::TextEnd | Ev::BinEnd => {
            let all = [Ev::Null, Ev::SeqVB, Ev::SeqVE, Ev::SeqEnd, Ev::MapKB, Ev::MapKE, Ev::MapVB, Ev::MapVE, Ev::MapEnd, Ev::TextEnd, Ev::BinEnd];
            let n = all[t.draw(all.len())].clone();
            if n == *e {
                return false;
            }
            *e = n;
        }
        Ev::Bool(v) => *v = !*v,
        Ev::U8(v) => *v ^= 1,
        Ev::U16(v) => *v ^= 1 << t.draw(16),
        Ev::U32(v) => *v ^= 1 << t.draw(32),
        Ev::U64(v) => *v ^= 1 << t.draw(64),
        Ev::U128(v) => *v ^= 1 << t.draw(128),
        Ev::I8(v) => *v ^= 1 << t.draw(8),
        Ev::I16(v) => *v ^= 1 << t.draw(16),
        Ev::I32(v) => *v ^= 1 << t.draw(32),
        Ev::I64(v) => {
            *e = if t.draw(2) == 0 { Ev::I64(*v ^ (1 << t.draw(64))) } else { Ev::I128(*v as i128) };
        }
        Ev::I128(v) => *v ^= 1 << t.draw(128),
        Ev::F32(v) => *v = if f32::from_bits(*v) == 1.5 { 0 } else { 1.5f32.to_bits() },
        Ev::F64(v) => *v = if f64::from_bits(*v) == 1.5 { 0 } else { 1.5f64.to_bits() },
        Ev::TextBegin(n) => {
            let n = *n;
            *e = if t.draw(2) == 0 { Ev::BinBegin(n) } else { let mut m = n; size(&mut m); Ev::TextBegin(m) };
        }
        Ev::BinBegin(n) | Ev::SeqBegin(n) | Ev::MapBegin(n) => size(n),
        Ev::Text(s, p) => {
            if t.draw(2) == 0 {
                s.push('x')
            } else {
                *p = if *p == P::C { P::B(0) } else { P::C };
            }
        }
        Ev::Bin(s, p) => {
            if t.draw(2) == 0 {
                s.push(1)
            } else {
                *p = if *p == P::C { P::B(0) } else { P::C };
            }
        }
        Ev::Hint(x) => {
            *x = if *x == sval::tags::NUMBER { sval::tags::CONSTANT_SIZE } else { sval::tags::NUMBER };
        }
        Ev::TaggedBegin(m) if t.draw(3) == 2 => *e = Ev::EnumBegin(m.clone()),
        Ev::EnumEnd(m) if t.draw(3) == 2 => *e = Ev::TaggedEnd(m.clone()),
        Ev::Tag(m) | Ev::TaggedBegin(m) | Ev::TaggedEnd(m) | Ev::EnumBegin(m) | Ev::EnumEnd(m) | Ev::RecEnd(m) | Ev::TupEnd(m) | Ev::RTEnd(m) => meta(m, t),
        Ev::RecBegin(m, n) | Ev::TupBegin(m, n) | Ev::RTBegin(m, n) => {
            if t.draw(2) == 0 {
                size(n)
            } else {
                meta(m, t)
            }
        }
        Ev::RecVB(x, l) | Ev::RecVE(x, l) => {
            if t.draw(2) == 0 {
                tag(x)
            } else {
                lab(l)
            }
        }
        Ev::TupVB(x, i) | Ev::TupVE(x, i) => {
            if t.draw(2) == 0 {
                tag(x)
            } else {
                i.val ^= 1
            }
        }
        Ev::RTVB(x, l, i) | Ev::RTVE(x, l, i) => match t.draw(3) {
            0 => tag(x),
            1 => lab(l),
            _ => i.val ^= 1,
        },
    }
    true
}

fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let mut s = Box::new(gen::script(t, cfg));
    if t.draw(16) == 15 {
        // a value that stops short, or does nothing at all, without failing
        st.hit("fault.value_stops_short");
        let n = t.draw(s.ops.len() + 1);
        s.ops.truncate(n);
    }
    let s = s;
    let r: &Script = &s;
    let producer = if t.draw(4) == 3 {
        st.hit("fault.producer_error");
        Some(pos(t, s.steps()))
    } else {
        None
    };
    let mut rec = Rec::default();
    let (res, fired) = ctx::producing(producer, || sval::Value::stream(r, &mut rec));
    let mode = t.draw(16);
    st.state(&(shape(&rec.evs), producer, mode.saturating_sub(11)));
    st.sample(|| format!("mode={mode} producer={producer:?}: {}", show(&rec.evs)));
    let strict = |evs: &[Ev]| -> Vec<Ev> {
        let mut v = evs.to_vec();
        v.iter_mut().for_each(unstat);
        v
    };
    // the tokens are the calls
    let mut buf = TokenBuf::new();
    let (res2, _) = ctx::producing(producer, || sval::Value::stream(r, &mut buf));
    let got: Vec<Ev> = buf.as_tokens().iter().map(call).collect();
    let cx = |v: Violation| v.with("script", &s).with("producer fault", producer).text("calls", &show(&rec.evs)).text("tokens", &show(&got));
    if res.is_ok() != res2.is_ok() {
        return Err(cx(fail("result", "recording the tokens changed the result of streaming")));
    }
    // borrowed memory of temporary labels and values aside, addresses have to be the same too
    let (want, have) = if gen::has_real(r) { (no_addr(&rec.evs), no_addr(&got)) } else { (rec.evs.clone(), got.clone()) };
    if let Some(d) = diff(&strict(&want), &strict(&have)) {
        return Err(cx(fail("tokens", d)));
    }
    if mode < 12 {
        return Ok(());
    }
    // the judgements (panics are slow, so less often)
    let dynamic = t.draw(2) == 1;
    match mode {
        12 | 13 => {
            let mut evs = rec.evs.clone();
            let what = t.draw(5);
            let k = if evs.is_empty() { 0 } else { t.draw(evs.len()) };
            let differs = match what {
                0 => false,
                1 if !evs.is_empty() => {
                    evs.remove(k);
                    true
                }
                2 if !evs.is_empty() => {
                    let e = evs[k].clone();
                    evs.insert(k, e);
                    true
                }
                3 if !evs.is_empty() => change(&mut evs[k], t),
                4 if k + 1 < evs.len() => {
                    let (mut a, mut b) = (evs[k].clone(), evs[k + 1].clone());
                    for e in [&mut a, &mut b] {
                        for_labels(e, &mut |l| {
                            l.stat = None;
                            l.tag = None
                        });
                    }
                    evs.swap(k, k + 1);
                    // only certainly different when the calls are of different kinds
                    std::mem::discriminant(&a) != std::mem::discriminant(&b)
                }
                _ => false,
            };
            if what == 4 && !differs {
                return Ok(());
            }
            let toks: Vec<Token> = evs.iter().map(token).collect();
            // `Token` compares floats as floats
            let same = !differs && !evs.iter().any(nan);
            let (p, _) = ctx::producing(producer, || {
                panics(|| {
                    if dynamic {
                        sval_test::assert_tokens(r as &dyn sval_dynamic::Value, &toks)
                    } else {
                        sval_test::assert_tokens(r, &toks)
                    }
                })
            });
            let want = fired || !same;
            st.hit(if want { "probe.tokens_rejected" } else { "probe.tokens_accepted" });
            if p != want {
                return Err(cx(fail("assert-tokens", format!("expected tokens {}; value failed: {fired}; panicked: {p}: {}", show(&evs), last_panic()))));
            }
        }
        14 => {
            let (p, _) = ctx::producing(producer, || {
                panics(|| if dynamic { sval_test::assert_valid(r as &dyn sval_dynamic::Value) } else { sval_test::assert_valid(r) })
            });
            st.hit(if p { "probe.judged_invalid" } else { "probe.judged_valid" });
            if p != fired {
                return Err(cx(fail("assert-valid", format!("value failed: {fired}; panicked: {p}: {}", last_panic()))));
            }
        }
        _ => {
            let (p, _) = ctx::producing(producer, || {
                panics(|| if dynamic { sval_test::assert_invalid(r as &dyn sval_dynamic::Value) } else { sval_test::assert_invalid(r) })
            });
            st.hit(if p { "probe.judged_valid" } else { "probe.judged_invalid" });
            if p == fired {
                return Err(cx(fail("assert-invalid", format!("value failed: {fired}; panicked: {p}: {}", last_panic()))));
            }
        }
    }
    Ok(())
}
