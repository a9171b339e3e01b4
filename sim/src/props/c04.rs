//! C04: text and binary are reassembled exactly from any fragment schedule, over histories of pushes, failures and clears.

use super::c02::{lower_all, m};
use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Gen};
use crate::real::Frags;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval_buffer::{BinaryBuf, TextBuf};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

/// Without an allocator a push may be refused, leaving the buffer as it was.
const NA: bool = cfg!(not(feature = "full"));

fn h(x: &impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// What a text collector must make of lowered events.
fn text_of(evs: &[Ev]) -> Option<String> {
    let mut s = String::new();
    for e in evs {
        match e {
            Ev::TextBegin(_) | Ev::TextEnd => {}
            Ev::Text(t, _) => s.push_str(t),
            _ => return None,
        }
    }
    Some(s)
}

fn bytes_of(evs: &[Ev]) -> Option<Vec<u8>> {
    let mut s = vec![];
    for e in evs {
        match e {
            Ev::BinBegin(_) | Ev::BinEnd | Ev::SeqBegin(_) | Ev::SeqVB | Ev::SeqVE | Ev::SeqEnd => {}
            Ev::Bin(t, _) => s.extend_from_slice(t),
            Ev::U8(b) => s.push(*b),
            _ => return None,
        }
    }
    Some(s)
}

/// Where the content of a buffer came from since it was last empty: a result may be borrowed only if the content is
/// one borrowed fragment (give or take empty ones, or ones that follow on from it in memory), and must be if that fragment was the only thing ever pushed.
#[derive(Default, Clone, Copy)]
struct Origin {
    src: Option<usize>,
    end: usize,
    other: bool,
    pushes: usize,
}

impl Origin {
    fn borrowed(&mut self, addr: usize, len: usize) {
        self.pushes += 1;
        if len > 0 {
            if self.src.is_none() {
                self.src = Some(addr);
            } else if self.end != addr {
                self.other = true;
            }
            self.end = addr + len;
        }
    }
    fn computed(&mut self, len: usize) {
        self.pushes += 1;
        if len > 0 {
            self.other = true;
        }
    }
    fn may(&self, addr: usize) -> bool {
        !self.other && self.src == Some(addr)
    }
    fn must(&self) -> bool {
        !self.other && self.src.is_some() && self.pushes == 1
    }
}

/// A history on one text buffer.
fn text_history(t: &mut Tape, st: &mut Stats) -> Res {
    let mut c = gen::Cfg::swarm(t);
    c.computed = true;
    let mut g = Gen::new(t, c);
    let n = 1 + g.t.draw(8);
    // memory that several borrowed fragments may be parts of
    let pool = g.text() + "xyz";
    let mut end = 0;
    #[derive(Debug, Hash)]
    enum O {
        Borrow(String),
        Part(usize, usize),
        Computed(String),
        Write(String),
        WriteFmt(String),
        Display(Vec<String>, Option<u64>),
        CollectDisplay(Vec<String>, Option<u64>),
        From(String),
        Clear,
        Clone,
    }
    let mut ops = vec![];
    for _ in 0..n {
        let o = match g.t.draw(12) {
            9.. => {
                let at: Vec<usize> = pool.char_indices().map(|x| x.0).chain([pool.len()]).collect();
                let a = if g.t.draw(3) == 0 { at[g.t.draw(at.len())] } else { end };
                let rest: Vec<usize> = at.into_iter().filter(|x| *x >= a).collect();
                end = rest[g.t.draw(rest.len())];
                O::Part(a, end)
            }
            0 => O::Borrow(g.text()),
            1 => O::Computed(g.text()),
            2 => O::Borrow(String::new()),
            3 => O::Write(g.text()),
            4 => O::WriteFmt(g.text()),
            5 => {
                let s = g.text();
                let f: Vec<String> = g.split(&s).into_iter().map(|x| x.0).collect();
                let at = if g.t.draw(3) == 2 { Some(pos(g.t, f.len() as u64)) } else { None };
                O::Display(f, at)
            }
            6 => match g.t.draw(2) {
                0 => O::From(g.text()),
                _ => {
                    let s = g.text();
                    let f: Vec<String> = g.split(&s).into_iter().map(|x| x.0).collect();
                    let at = if g.t.draw(3) == 2 { Some(pos(g.t, f.len() as u64)) } else { None };
                    O::CollectDisplay(f, at)
                }
            },
            7 => O::Clear,
            _ => O::Clone,
        };
        ops.push(o);
    }
    st.state(&("text", h(&ops)));
    st.sample(|| format!("text history: {ops:?}"));
    let mut want = String::new();
    let mut origin = Origin::default();
    let mut buf = TextBuf::new();
    let pool = &pool[..];
    for (i, o) in ops.iter().enumerate() {
        let cx = |v: Violation| v.with("history", &ops).with("at operation", i);
        match o {
            O::Borrow(_) | O::Part(..) => {
                let s = match o {
                    O::Part(a, b) => &pool[*a..*b],
                    O::Borrow(s) => s,
                    _ => unreachable!(),
                };
                if let Err(e) = buf.push_fragment(s) {
                    if NA && !want.is_empty() && buf.as_str() == want {
                        continue;
                    }
                    return Err(cx(fail("push", e.to_string())));
                }
                origin.borrowed(s.as_ptr() as usize, s.len());
                want.push_str(s);
            }
            O::Computed(s) => {
                match ctx::lend_str(s, |s| buf.push_fragment_computed(s)) {
                    Ok(()) => {}
                    Err(_) if NA && buf.as_str() == want => continue,
                    Err(e) => return Err(cx(fail("push", e.to_string()))),
                }
                want.push_str(s);
                origin.computed(s.len());
            }
            O::Write(s) => {
                match ctx::lend_str(s, |s| buf.write_str(s)) {
                    Ok(()) => {}
                    Err(_) if NA && buf.as_str() == want => continue,
                    Err(e) => return Err(cx(fail("push", e.to_string()))),
                }
                want.push_str(s);
                origin.computed(s.len());
            }
            O::WriteFmt(s) => {
                match ctx::lend_str(s, |s| write!(&mut buf, "<{}>", s)) {
                    Ok(()) => {}
                    Err(_) if NA && buf.as_str() == want => continue,
                    Err(e) => return Err(cx(fail("push", e.to_string()))),
                }
                want.push_str(&format!("<{s}>"));
                origin.computed(2);
            }
            O::Display(f, at) | O::CollectDisplay(f, at) => {
                let collect = matches!(o, O::CollectDisplay(..));
                let d = Frags(f.clone());
                let (r, fired) = ctx::producing(*at, || {
                    if collect {
                        TextBuf::collect_display(&d).map(Some)
                    } else {
                        buf.push_display(&d).map(|_| None)
                    }
                });
                if fired {
                    st.hit("fault.display_error");
                }
                if NA && r.is_err() {
                    if buf.as_str() != want {
                        return Err(cx(fail("text-differs", format!("refusing to format left {:?} instead of {want:?}", buf.as_str()))));
                    }
                    continue;
                }
                if r.is_err() != fired {
                    return Err(cx(fail("display-result", format!("Display failed: {fired}, the buffer said: {:?}", r.map(|_| ())))));
                }
                if collect {
                    if let Ok(Some(b)) = r {
                        buf = b;
                        want = f.concat();
                        origin = Origin::default();
                        origin.computed(want.len());
                    }
                } else {
                    let n = if fired { at.unwrap() as usize } else { f.len() };
                    let add = f[..n].concat();
                    origin.computed(add.len());
                    want.push_str(&add);
                }
            }
            O::From(s) => {
                buf = TextBuf::from(s.as_str());
                want = s.clone();
                origin = Origin::default();
                origin.borrowed(s.as_ptr() as usize, s.len());
            }
            O::Clear => {
                buf.clear();
                want.clear();
                origin = Origin::default();
                if buf != TextBuf::new() {
                    return Err(cx(fail("clear", "a cleared buffer differs from a new one")));
                }
            }
            O::Clone => {
                let c = buf.clone();
                if c != buf {
                    return Err(cx(fail("clone", "a clone differs")));
                }
                let old = std::mem::replace(&mut buf, c);
                // the original goes its own way
                let mut old = old;
                let _ = old.push_fragment_computed("~~");
                drop(old);
            }
        }
        if buf.as_str() != want || buf.as_ref() != want {
            return Err(cx(fail("text-differs", format!("expected {want:?} got {:?}", buf.as_str()))));
        }
        if let Some(b) = buf.as_borrowed_str() {
            if b != want {
                return Err(cx(fail("text-differs", format!("as_borrowed_str: expected {want:?} got {b:?}"))));
            }
            if !b.is_empty() && !origin.may(b.as_ptr() as usize) {
                return Err(cx(fail("conjured-borrow", format!("as_borrowed_str gave {b:?} which is not the one borrowed fragment"))));
            }
        } else if origin.must() {
            return Err(cx(fail("needless-copy", "a single borrowed fragment was copied")));
        }
        // what it streams is what it holds
        let mut rec = Rec::new(None);
        let r1 = sval::Value::stream(&buf, &mut rec);
        let mut rec2 = Rec::new(None);
        let r2 = sval_ref::ValueRef::stream_ref(&buf, &mut rec2);
        let w = [Ev::TextBegin(Some(want.len())), Ev::Text(want.clone(), P::C), Ev::TextEnd];
        let w = merged(&w, false);
        if r1.is_err() || r2.is_err() || merged(&rec.evs, false) != w || merged(&rec2.evs, false) != w {
            return Err(cx(fail("text-differs", format!("streams {} / {}", show(&rec.evs), show(&rec2.evs)))));
        }
    }
    Ok(())
}

fn binary_history(t: &mut Tape, st: &mut Stats) -> Res {
    let c = gen::Cfg::swarm(t);
    let mut g = Gen::new(t, c);
    let n = 1 + g.t.draw(8);
    let mut ops: Vec<(usize, Vec<u8>, (usize, usize))> = vec![];
    let pool = [&g.bytes()[..], b"xyz"].concat();
    let mut end = 0;
    for _ in 0..n {
        let k = g.t.draw(8);
        let mut part = (0, 0);
        if k >= 6 {
            let a = if g.t.draw(3) == 0 { g.t.draw(pool.len() + 1) } else { end };
            end = a + g.t.draw(pool.len() - a + 1);
            part = (a, end);
        }
        ops.push((k, g.bytes(), part));
    }
    st.state(&("binary", h(&ops)));
    st.sample(|| format!("binary history: {ops:?}"));
    let mut want: Vec<u8> = vec![];
    let mut origin = Origin::default();
    let mut buf = BinaryBuf::new();
    for (i, (o, b, part)) in ops.iter().enumerate() {
        let cx = |v: Violation| v.with("history", &ops).with("at operation", i);
        match o {
            0 | 6.. => {
                let b = if *o == 0 { &b[..] } else { &pool[part.0..part.1] };
                if let Err(e) = buf.push_fragment(b) {
                    if NA && !want.is_empty() && buf.as_slice() == want {
                        continue;
                    }
                    return Err(cx(fail("push", e.to_string())));
                }
                origin.borrowed(b.as_ptr() as usize, b.len());
                want.extend_from_slice(b);
            }
            1 | 2 => {
                if let Err(e) = ctx::lend_bytes(b, |b| buf.push_fragment_computed(b)) {
                    if NA && buf.as_slice() == want {
                        continue;
                    }
                    return Err(cx(fail("push", e.to_string())));
                }
                want.extend_from_slice(b);
                origin.computed(b.len());
            }
            3 => {
                buf = BinaryBuf::from(&b[..]);
                want = b.clone();
                origin = Origin::default();
                origin.borrowed(b.as_ptr() as usize, b.len());
            }
            4 => {
                buf.clear();
                want.clear();
                origin = Origin::default();
                if buf != BinaryBuf::new() {
                    return Err(cx(fail("clear", "a cleared buffer differs from a new one")));
                }
            }
            _ => {
                let c = buf.clone();
                if c != buf {
                    return Err(cx(fail("clone", "a clone differs")));
                }
                let mut old = std::mem::replace(&mut buf, c);
                let _ = old.push_fragment_computed(b"~~");
            }
        }
        if buf.as_slice() != want || buf.as_ref() != want {
            return Err(cx(fail("binary-differs", format!("expected {want:?} got {:?}", buf.as_slice()))));
        }
        if let Some(b) = buf.as_borrowed_slice() {
            if b != want {
                return Err(cx(fail("binary-differs", format!("as_borrowed_slice: expected {want:?} got {b:?}"))));
            }
            if !b.is_empty() && !origin.may(b.as_ptr() as usize) {
                return Err(cx(fail("conjured-borrow", "as_borrowed_slice is not the one borrowed fragment")));
            }
        } else if origin.must() {
            return Err(cx(fail("needless-copy", "a single borrowed fragment was copied")));
        }
        let mut rec = Rec::new(None);
        let r1 = sval::Value::stream(&buf, &mut rec);
        let mut rec2 = Rec::new(None);
        let r2 = sval_ref::ValueRef::stream_ref(&buf, &mut rec2);
        let w = merged(&[Ev::BinBegin(Some(want.len())), Ev::Bin(want.clone(), P::C), Ev::BinEnd], false);
        if r1.is_err() || r2.is_err() || merged(&rec.evs, false) != w || merged(&rec2.evs, false) != w {
            return Err(cx(fail("binary-differs", format!("streams {} / {}", show(&rec.evs), show(&rec2.evs)))));
        }
    }
    Ok(())
}

/// Whether there's nothing to join: one borrowed fragment, or none.
fn one(evs: &[Ev]) -> bool {
    let f: Vec<&Ev> = evs.iter().filter(|e| matches!(e, Ev::Text(..) | Ev::Bin(..) | Ev::U8(_))).collect();
    matches!(f[..], [] | [Ev::Text(_, P::B(_))] | [Ev::Bin(_, P::B(_))])
}

/// Collecting and extracting from a whole value.
fn whole(t: &mut Tape, st: &mut Stats) -> Res {
    let leafy = t.draw(4) != 3;
    let s = Box::new(gen::script(t, |c, t| {
        c.numbers = true;
        if leafy {
            // values that are mostly text or bytes
            c.kinds = gen::kind::TEXT | gen::kind::BIN | gen::kind::NUMBER | gen::kind::TAGGED | gen::kind::OPTION | gen::kind::REAL | gen::kind::TAG;
            if t.draw(2) == 1 {
                c.kinds |= gen::kind::SEQ | gen::kind::TUPLE | gen::kind::SCALAR;
            }
            c.depth = t.draw(3);
        }
    }));
    let evs = s.events();
    let fault = if t.draw(4) == 3 {
        st.hit("fault.producer_error");
        Some(pos(t, s.steps()))
    } else {
        None
    };
    st.state(&("whole", shape(&evs), fault));
    st.sample(|| format!("whole fault={fault:?}: {}", show(&evs)));
    let cx = |v: Violation| v.with("script", &s).with("fault", fault);
    let as_text = lower_all(&evs, m::FRAG);
    let as_bin = lower_all(&evs, m::FRAG | m::BIN | m::BINFRAG | m::U8 | m::MAP);
    // the value fails (or is seen to be of another kind, whichever comes first)
    let want_text = text_of(&as_text).filter(|_| fault.is_none());
    let want_bin = bytes_of(&as_bin).filter(|_| fault.is_none());
    st.hit(if want_text.is_some() { "probe.is_text" } else { "probe.not_text" });
    st.hit(if want_bin.is_some() { "probe.is_binary" } else { "probe.not_binary" });
    let r: &Script = &s;
    let (got, _) = ctx::producing(fault, || TextBuf::collect(r));
    match (&want_text, &got) {
        (None, Ok(b)) => return Err(cx(fail("text-accepted", format!("TextBuf::collect returned {:?}", b.as_str())))),
        (Some(w), Ok(b)) if w != b.as_str() => return Err(cx(fail("text-differs", format!("expected {w:?} got {:?}", b.as_str())))),
        (Some(_), Err(_)) if NA && !one(&as_text) => {}
        (Some(_), Err(e)) => return Err(cx(fail("text-refused", e.to_string()))),
        _ => {}
    }
    if let Ok(b) = &got {
        borrow_from(b.as_borrowed_str().map(|s| s.as_bytes()), &as_text, "TextBuf::collect").map_err(cx)?;
    }
    let (got, _) = ctx::producing(fault, || BinaryBuf::collect(r));
    match (&want_bin, &got) {
        (None, Ok(b)) => return Err(cx(fail("binary-accepted", format!("BinaryBuf::collect returned {:?}", b.as_slice())))),
        (Some(w), Ok(b)) if w != b.as_slice() => return Err(cx(fail("binary-differs", format!("expected {w:?} got {:?}", b.as_slice())))),
        (Some(_), Err(_)) if NA && !one(&as_bin) => {}
        (Some(_), Err(e)) => return Err(cx(fail("binary-refused", e.to_string()))),
        _ => {}
    }
    if let Ok(b) = &got {
        borrow_from(b.as_borrowed_slice(), &as_bin, "BinaryBuf::collect").map_err(cx)?;
    }
    // extraction
    let (got, _) = ctx::producing(fault, || sval::Value::to_text(r));
    let frags: Vec<&Ev> = as_text.iter().filter(|e| matches!(e, Ev::Text(..))).collect();
    match (&want_text, got) {
        (None, Some(g)) => return Err(cx(fail("to-text", format!("to_text gave {g:?}")))),
        (Some(w), Some(g)) if w != g => return Err(cx(fail("to-text", format!("to_text gave {g:?} expected {w:?}")))),
        (Some(w), None) => {
            if let [Ev::Text(_, P::B(_))] = frags[..] {
                return Err(cx(fail("to-text", format!("to_text gave None for the borrowed text {w:?}"))));
            }
        }
        _ => {}
    }
    if let Some(g) = got {
        borrow_from(Some(g.as_bytes()), &as_text, "to_text").map_err(cx)?;
    }
    let only_bin = lower_all(&evs, m::FRAG | m::BIN | m::BINFRAG);
    let whole_bin = if only_bin.iter().all(|e| matches!(e, Ev::BinBegin(_) | Ev::Bin(..) | Ev::BinEnd)) { bytes_of(&only_bin).filter(|_| fault.is_none()) } else { None };
    let (got, _) = ctx::producing(fault, || sval::Value::to_binary(r));
    let frags: Vec<&Ev> = only_bin.iter().filter(|e| matches!(e, Ev::Bin(..))).collect();
    match (&whole_bin, got) {
        (None, Some(g)) => return Err(cx(fail("to-binary", format!("to_binary gave {g:?}")))),
        (Some(w), Some(g)) if w != g => return Err(cx(fail("to-binary", format!("to_binary gave {g:?} expected {w:?}")))),
        (Some(w), None) => {
            if let [Ev::Bin(_, P::B(_))] = frags[..] {
                return Err(cx(fail("to-binary", format!("to_binary gave None for the borrowed binary {w:?}"))));
            }
        }
        _ => {}
    }
    if let Some(g) = got {
        borrow_from(Some(g), &only_bin, "to_binary").map_err(cx)?;
    }
    Ok(())
}

/// A borrowed result must be one of the value's own borrowed fragments (or static).
fn borrow_from(b: Option<&[u8]>, evs: &[Ev], what: &str) -> Res {
    let Some(b) = b else { return Ok(()) };
    if b.is_empty() {
        return Ok(());
    }
    let ok = evs.iter().any(|e| match e {
        // address 0: a static label
        Ev::Text(s, P::B(a)) => s.as_bytes() == b && (*a == 0 || *a == b.as_ptr() as usize),
        Ev::Bin(s, P::B(a)) => s == b && *a == b.as_ptr() as usize,
        _ => false,
    });
    if !ok {
        return Err(fail("conjured-borrow", format!("{what} returned memory that is not one of the value's borrowed fragments: {b:?}")));
    }
    Ok(())
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    match t.draw(4) {
        0 => text_history(t, st),
        1 => binary_history(t, st),
        _ => whole(t, st),
    }
}
