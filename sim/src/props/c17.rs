//! C17: without an allocator, results are the same or an error, never truncated.
//!
//! This whole simulator is built a second time with every crate under test free of `alloc` and `std`. What needs no
//! buffering is judged exactly as with an allocator; what may need it is either refused or exactly right.

use super::common::*;
use super::{c01, c02, c04, c05, c10, c11, c12, c13, c14};
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Gen, Keys};
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval::{Stream as _, Value as _};
use sval_buffer::{Value, ValueBuf};

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let k = t.draw(14);
    st.hit(["probe.layers", "probe.lowering", "probe.json", "probe.fmt", "probe.text", "probe.value_buf", "probe.nested", "probe.serde", "probe.from_serde", "probe.flatten", "probe.labels", "probe.value_buf", "probe.nested", "probe.flatten"][k]);
    match k {
        0 => c01::run(t, st),
        1 => c02::run(t, st),
        2 => c05::run(t, st),
        3 => c10::run(t, st),
        4 => c04::run(t, st),
        5 | 11 => value_buf(t, st),
        6 | 12 => {
            let s = match t.draw(2) {
                0 => gen::script(t, |c, t| {
                    c.nested_enum = t.draw(2) == 1;
                    c.empty_enum = t.draw(4) == 3;
                }),
                _ => plain(t),
            };
            let must = direct(&s);
            if must {
                st.hit("probe.needs_no_buffer");
            }
            c11::one(t, st, s, !must)
        }
        7 => {
            let s = match t.draw(2) {
                0 => gen::script(t, c12::cfg),
                _ => plain(t),
            };
            let must = direct(&s);
            if must {
                st.hit("probe.needs_no_buffer");
            }
            c12::one(t, st, s, !must)
        }
        8 => c13::run(t, st),
        9 | 13 => {
            let mut c = gen::Cfg::swarm(t);
            let must = t.draw(3) == 2;
            if must {
                // nothing with names of its own making
                c.kinds &= gen::kind::SCALAR | gen::kind::SEQ | gen::kind::TUPLE | gen::kind::TEXT | gen::kind::OPTION;
                c.kinds |= gen::kind::SCALAR | gen::kind::TUPLE;
                c.keys = Keys::Scalar;
                st.hit("probe.needs_no_buffer");
            }
            c14::one(t, st, c, !must)
        }
        _ => labels(t, st),
    }
}

/// A value made so that nothing in it needs joining: every part is a scalar, one borrowed text, or delivered whole.
fn plain(t: &mut Tape) -> Script {
    let mut c = gen::Cfg::swarm(t);
    c.computed = false;
    let mut g = Gen::new(t, c);
    let mut left = 10;
    node(&mut g, 3, &mut left, false)
}

fn leaf(g: &mut Gen) -> Vec<Ev> {
    match g.t.draw(3) {
        0 => vec![g.scalar()],
        1 => {
            let s = g.text();
            vec![Ev::TextBegin(Some(s.len())), Ev::Text(s, P::B(0)), Ev::TextEnd]
        }
        _ => {
            let s = g.bytes();
            vec![Ev::BinBegin(None), Ev::Bin(s, P::B(0)), Ev::BinEnd]
        }
    }
}

const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "x y"];

fn part(g: &mut Gen, depth: usize, left: &mut usize, out: &mut Vec<Op>, variant: bool) {
    if depth == 0 || *left == 0 || g.t.draw(2) == 0 {
        out.extend(leaf(g).into_iter().map(Op::Call));
    } else {
        let s = node(g, depth - 1, left, variant);
        let how = [How::Value, How::ValueBox, How::DynValue, How::DynSend, How::DynSync, How::RefValue][g.t.draw(6)];
        out.push(Op::Sub(how, Box::new(s)));
    }
}

fn node(g: &mut Gen, depth: usize, left: &mut usize, variant: bool) -> Script {
    let mut ops = vec![];
    *left = left.saturating_sub(1);
    let n = g.t.draw(3);
    let meta = |g: &mut Gen| Meta {
        tag: None,
        label: if g.t.draw(2) == 1 { Some(L::stat(NAMES[g.t.draw(4)])) } else { None },
        index: if g.t.draw(2) == 1 { Some(I::offset(g.t.draw(3))) } else { None },
    };
    let named = |g: &mut Gen| Meta { tag: None, label: Some(L::stat(NAMES[g.t.draw(4)])), index: Some(I::offset(g.t.draw(3))) };
    macro_rules! call {
        ($($e:expr),*) => { $( let e = $e; ops.push(Op::Call(e)); )* };
    }
    match g.t.draw(if variant { 6 } else { 7 }) {
        0 => ops.extend(leaf(g).into_iter().map(Op::Call)),
        1 => {
            call!(Ev::SeqBegin(Some(n)));
            for _ in 0..n {
                call!(Ev::SeqVB);
                part(g, depth, left, &mut ops, variant);
                call!(Ev::SeqVE);
            }
            call!(Ev::SeqEnd);
        }
        2 => {
            call!(Ev::MapBegin(Some(n)));
            for _ in 0..n {
                call!(Ev::MapKB);
                ops.extend(leaf(g).into_iter().map(Op::Call));
                call!(Ev::MapKE, Ev::MapVB);
                part(g, depth, left, &mut ops, variant);
                call!(Ev::MapVE);
            }
            call!(Ev::MapEnd);
        }
        3 => {
            let m = meta(g);
            call!(Ev::RecBegin(m.clone(), Some(n)));
            for i in 0..n {
                let l = L::stat(NAMES[i]);
                call!(Ev::RecVB(None, l.clone()));
                part(g, depth, left, &mut ops, variant);
                call!(Ev::RecVE(None, l));
            }
            call!(Ev::RecEnd(m));
        }
        4 => {
            let m = meta(g);
            call!(Ev::TupBegin(m.clone(), Some(n)));
            for i in 0..n {
                call!(Ev::TupVB(None, I::offset(i)));
                part(g, depth, left, &mut ops, variant);
                call!(Ev::TupVE(None, I::offset(i)));
            }
            call!(Ev::TupEnd(m));
        }
        5 => {
            let m = named(g);
            call!(Ev::TaggedBegin(m.clone()));
            part(g, depth, left, &mut ops, variant);
            call!(Ev::TaggedEnd(m));
        }
        _ => {
            let (m, v) = (named(g), named(g));
            call!(Ev::EnumBegin(m.clone()));
            match g.t.draw(2) {
                0 => {
                    call!(Ev::Tag(v));
                }
                _ => {
                    call!(Ev::TaggedBegin(v.clone()));
                    ops.extend(leaf(g).into_iter().map(Op::Call));
                    call!(Ev::TaggedEnd(v));
                }
            }
            call!(Ev::EnumEnd(m));
        }
    }
    Script { ops }
}

/// Whether a script was made by `plain`: recognised by its parts, so that other scripts like it count too.
fn direct(s: &Script) -> bool {
    let Some(ops) = s.ops.iter().map(|o| match o {
        Op::Call(e) => Some((Some(e), true)),
        Op::Sub(How::Value | How::ValueBox | How::RefValue, s) if direct(s) && !has_enum(s) => Some((None, true)),
        // what an erased value holds comes one call at a time
        Op::Sub(How::DynValue | How::DynSend | How::DynSync, s) if direct(s) && !has_enum(s) && s.ops.iter().all(|o| matches!(o, Op::Call(_))) => Some((None, true)),
        _ => None,
    }).collect::<Option<Vec<_>>>() else {
        return false;
    };
    let evs: Vec<Option<&Ev>> = ops.into_iter().map(|o| o.0).collect();
    let mut i = 0;
    container(&evs, &mut i) && i == evs.len()
}

fn has_enum(s: &Script) -> bool {
    s.ops.iter().any(|o| match o {
        Op::Call(e) => matches!(e, Ev::EnumBegin(_)),
        Op::Sub(_, s) => has_enum(s),
        _ => true,
    })
}

fn stat(m: &Meta) -> bool {
    m.label.as_ref().map_or(true, |l| l.stat.is_some())
}

/// A scalar, one borrowed text or binary, or a value delivered whole.
fn atom(evs: &[Option<&Ev>], i: &mut usize) -> bool {
    match evs.get(*i) {
        Some(None) => {
            *i += 1;
            true
        }
        Some(Some(e)) => match e {
            Ev::TextBegin(_) => {
                let ok = matches!(evs.get(*i + 1), Some(Some(Ev::Text(_, P::B(_))))) && matches!(evs.get(*i + 2), Some(Some(Ev::TextEnd)));
                *i += 3;
                ok
            }
            Ev::BinBegin(_) => {
                let ok = matches!(evs.get(*i + 1), Some(Some(Ev::Bin(_, P::B(_))))) && matches!(evs.get(*i + 2), Some(Some(Ev::BinEnd)));
                *i += 3;
                ok
            }
            Ev::Null | Ev::Bool(_) | Ev::I8(_) | Ev::I16(_) | Ev::I32(_) | Ev::I64(_) | Ev::I128(_) | Ev::U8(_) | Ev::U16(_) | Ev::U32(_) | Ev::U64(_) | Ev::U128(_) | Ev::F32(_) | Ev::F64(_) => {
                *i += 1;
                true
            }
            _ => false,
        },
        None => false,
    }
}

fn container(evs: &[Option<&Ev>], i: &mut usize) -> bool {
    let at = |i: usize| evs.get(i).copied().flatten();
    match at(*i) {
        Some(Ev::SeqBegin(_)) => {
            *i += 1;
            while let Some(Ev::SeqVB) = at(*i) {
                *i += 1;
                if !atom(evs, i) || !matches!(at(*i), Some(Ev::SeqVE)) {
                    return false;
                }
                *i += 1;
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::SeqEnd))
        }
        Some(Ev::MapBegin(_)) => {
            *i += 1;
            while let Some(Ev::MapKB) = at(*i) {
                *i += 1;
                if !atom(evs, i) || !matches!(at(*i), Some(Ev::MapKE)) || !matches!(at(*i + 1), Some(Ev::MapVB)) {
                    return false;
                }
                *i += 2;
                if !atom(evs, i) || !matches!(at(*i), Some(Ev::MapVE)) {
                    return false;
                }
                *i += 1;
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::MapEnd))
        }
        Some(Ev::RecBegin(m, _)) if stat(m) => {
            *i += 1;
            while let Some(Ev::RecVB(_, l)) = at(*i) {
                *i += 1;
                if l.stat.is_none() || !atom(evs, i) || !matches!(at(*i), Some(Ev::RecVE(..))) {
                    return false;
                }
                *i += 1;
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::RecEnd(_)))
        }
        Some(Ev::TupBegin(m, _)) if stat(m) => {
            *i += 1;
            while let Some(Ev::TupVB(..)) = at(*i) {
                *i += 1;
                if !atom(evs, i) || !matches!(at(*i), Some(Ev::TupVE(..))) {
                    return false;
                }
                *i += 1;
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::TupEnd(_)))
        }
        Some(Ev::TaggedBegin(m)) if stat(m) => {
            *i += 1;
            if !atom(evs, i) {
                return false;
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::TaggedEnd(_)))
        }
        Some(Ev::EnumBegin(m)) if stat(m) => {
            *i += 1;
            match at(*i) {
                Some(Ev::Tag(v)) if stat(v) => *i += 1,
                Some(Ev::TaggedBegin(v)) if stat(v) => {
                    *i += 1;
                    if matches!(evs.get(*i), Some(None)) || !atom(evs, i) || !matches!(at(*i), Some(Ev::TaggedEnd(_))) {
                        return false;
                    }
                    *i += 1;
                }
                _ => return false,
            }
            *i += 1;
            matches!(at(*i - 1), Some(Ev::EnumEnd(_)))
        }
        _ => atom(evs, i),
    }
}

/// Whether the buffer has room for the value: one part, with nothing to join.
fn fits(evs: &[Ev]) -> bool {
    let some: Vec<Option<&Ev>> = evs.iter().map(Some).collect();
    let mut i = 0;
    atom(&some, &mut i) && i == evs.len()
}

/// Capturing values in a buffer with room for one part.
fn value_buf(t: &mut Tape, st: &mut Stats) -> Res {
    let n = t.range(1, 3);
    let leafy = t.draw(3) != 0;
    let scripts: Vec<Box<Script>> = (0..n)
        .map(|_| {
            let mut c = gen::Cfg::swarm(t);
            c.nested_enum = t.draw(3) == 2;
            let depth = if leafy { 0 } else { c.depth };
            Box::new(Gen::new(t, c).sub(depth))
        })
        .collect();
    let mut b = ValueBuf::new();
    for (i, s) in scripts.iter().enumerate() {
        let (evs, _, steps) = s.events_until(None);
        let fault = if t.draw(4) == 3 {
            st.hit("fault.producer_error");
            Some(pos(t, steps))
        } else {
            None
        };
        let want = content_hints(&evs);
        let mode = t.draw(8);
        let r: &Script = s;
        st.state(&(shape(&evs), mode, fault, i));
        st.sample(|| format!("capture mode={mode} fault={fault:?}: {}", show(&evs)));
        let cx = |v: Violation| v.with("script", &s).with("capture mode", mode).with("producer fault", fault).text("expected", &show(&want));
        let must = fits(&evs) && fault.is_none();
        if must {
            st.hit("probe.needs_no_buffer");
        }
        let mut fired = false;
        let mut run = |f: &mut dyn FnMut() -> bool| {
            let (ok, x) = ctx::producing(fault, f);
            fired = x;
            ok
        };
        let mut rec = Rec::new(None);
        let mut rec2 = Rec::new(None);
        let mut replay = |v: &Value| sval_ref::stream_ref(&mut rec, v).is_ok() & v.stream(&mut rec2).is_ok();
        let mut replayed = true;
        let captured = match mode {
            0 => {
                let mut o = None;
                let ok = run(&mut || Value::collect(r).map(|v| o = Some(v)).is_ok());
                if let Some(v) = o {
                    replayed = replay(&v);
                    if replayed {
                        // a copy of it is it
                        let mut again = Rec::new(None);
                        if v.clone().stream(&mut again).is_err() || content_hints(&again.evs) != content_hints(&rec2.evs) {
                            return Err(cx(fail("clone", show(&again.evs))));
                        }
                    }
                }
                ok
            }
            1 => {
                let mut o = None;
                let ok = run(&mut || ValueBuf::collect(r).map(|v| o = Some(v)).is_ok());
                if let Some(v) = o {
                    replayed = replay(&v.to_value());
                }
                ok
            }
            2 => {
                // owned: refused, or no longer borrowing
                let mut o = None;
                let ok = run(&mut || Value::collect_owned(r).map(|v| o = Some(v)).is_ok());
                if let Some(v) = o {
                    replayed = replay(&v);
                    if rec.evs.iter().any(|e| matches!(e, Ev::Text(s, P::B(p)) if !s.is_empty() && !crate::mem::in_image(*p))) {
                        return Err(cx(fail("conjured", "an owned value still borrows")));
                    }
                } else if !fired {
                    st.hit("probe.refused");
                    continue;
                }
                ok
            }
            _ => {
                // the same buffer again
                let src = t.draw(c01::SOURCES);
                let leaked: &Script = r;
                // SAFETY: only lives as long as the scripts
                let leaked: &&Script = unsafe { &*(&leaked as *const &Script) };
                let b2 = &mut b;
                let mut res = false;
                let ok = run(&mut || {
                    res = c01::source(src % 10, s, leaked, b2).is_ok();
                    res
                });
                if b.is_complete() != ok && !fired {
                    return Err(cx(fail("is-complete", format!("is_complete() = {} but capturing said ok = {ok}", b.is_complete()))));
                }
                if ok {
                    replayed = sval_ref::stream_ref(&mut rec, &b).is_ok() & b.stream(&mut rec2).is_ok();
                }
                b.clear();
                let mut empty = Rec::new(None);
                if b.is_complete() || b.stream(&mut empty).is_err() || empty.evs != [Ev::Null] {
                    return Err(cx(fail("clear", format!("a cleared buffer streams {}", show(&empty.evs)))));
                }
                ok
            }
        };
        match (captured, fired) {
            (true, true) => return Err(cx(fail("truncated", "the value failed part way but was captured"))),
            (false, _) if must => return Err(cx(fail("refused", "a value of one part was refused"))),
            (false, _) => {
                st.hit("probe.refused");
                continue;
            }
            _ => {}
        }
        if !replayed {
            return Err(cx(fail("replay-failed", "replaying a captured value failed")));
        }
        for r in [&rec, &rec2] {
            if let Some(d) = diff(&want, &content_hints(&r.evs)) {
                return Err(cx(fail("replay-differs", d)).text("replayed", &show(&r.evs)));
            }
        }
    }
    Ok(())
}

fn labels(t: &mut Tape, st: &mut Stats) -> Res {
    use sval::Label;
    let c = gen::Cfg::swarm(t);
    let mut g = Gen::new(t, c);
    let text = g.text();
    let is_static = t.draw(2) == 1;
    let tag = [None, Some(sval::tags::VALUE_IDENT), Some(sval::tags::NUMBER)][t.draw(3)].clone();
    let n = t.draw(5);
    let ops: Vec<usize> = (0..n).map(|_| t.draw(2)).collect();
    st.state(&(&text, is_static, &ops, tag.is_some()));
    let want = if is_static { "static" } else { &text };
    let cx = |v: Violation| v.with("text", want).with("static", is_static).with("ops", &ops);
    let mut l = if is_static { Label::new("static") } else { Label::new_computed(&text) };
    if let Some(tag) = &tag {
        l = l.with_tag(tag);
    }
    for o in &ops {
        l = match o {
            0 => l.clone(),
            _ => match l.try_to_owned() {
                Ok(l) => l,
                Err(_) if !is_static => {
                    st.hit("probe.refused");
                    break;
                }
                Err(_) => return Err(cx(fail("refused", "a static label can't be owned"))),
            },
        };
        if l.as_str() != want || l.as_static_str().is_some() != is_static || l.tag() != tag.as_ref() {
            return Err(cx(fail("label", format!("is now {:?} static={:?} tag={:?}", l.as_str(), l.as_static_str(), l.tag()))));
        }
        if !is_static && *o == 1 {
            return Err(cx(fail("conjured", "a label made of short-lived text is said to be owned")));
        }
    }
    Ok(())
}
