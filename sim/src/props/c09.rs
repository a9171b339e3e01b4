//! C09: borrowed data is never conjured from short-lived data, nor needlessly copied.
//!
//! Values are delivered while memory is watched: short-lived sources are overwritten as soon as their call returns,
//! freed memory is overwritten and never reused, and intermediate buffers are gone before the consumer looks again at
//! what it was told it could keep.

use super::c01::{self, SINKS, SOURCES};
use super::c02::{self, Masked};
use super::c07::{flat_script, real_script};
use super::common::*;
use super::{c11, c12};
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Cfg, Gen, Keys};
use crate::mem::Watch;
use crate::nest::{m as nm, NRec};
use crate::run::*;
use crate::script::*;
use crate::ser;
use crate::tape::Tape;
use sval::Value as _;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_serde::{ToSerialize, ToValue};

/// Whatever was delivered as living as long as the value must still be there.
fn intact(w: &Watch, rec: &[Ev]) -> Res {
    for e in rec {
        let r = match e {
            Ev::Text(s, P::B(p)) => w.check(s.as_bytes(), *p),
            Ev::Bin(s, P::B(p)) => w.check(s, *p),
            _ => None,
        };
        if let Some(r) = r {
            return Err(fail("conjured", r));
        }
        let mut e = e.clone();
        let mut bad = None;
        for_labels(&mut e, &mut |l| {
            if let Some(s) = l.stat {
                if !s.is_empty() && !crate::mem::in_image(s.as_ptr() as usize) {
                    bad = Some(l.text.clone());
                }
            }
        });
        if let Some(b) = bad {
            return Err(fail("conjured", format!("the label {b:?} is said to be static but isn't")));
        }
    }
    if w.double_free() {
        return Err(fail("double-free", "a block of memory was freed twice"));
    }
    Ok(())
}

/// The fragments of each text and binary, in order.
fn pieces(evs: &[Ev]) -> Vec<Vec<(Vec<u8>, Option<usize>)>> {
    let mut out = vec![];
    for e in evs {
        match e {
            Ev::TextBegin(_) | Ev::BinBegin(_) => out.push(vec![]),
            Ev::Text(s, p) => out.last_mut().unwrap().push((s.clone().into_bytes(), if let P::B(p) = p { Some(*p) } else { None })),
            Ev::Bin(s, p) => out.last_mut().unwrap().push((s.clone(), if let P::B(p) = p { Some(*p) } else { None })),
            _ => {}
        }
    }
    out
}

/// Text delivered as one borrowed fragment is still that fragment after being buffered.
fn kept(evs: &[Ev], got: &[Ev]) -> Res {
    let (a, b) = (pieces(evs), pieces(got));
    if a.len() != b.len() {
        return Err(fail("differs", "the buffered value has other texts"));
    }
    for (a, b) in a.iter().zip(&b) {
        if let [(s, Some(p))] = &a[..] {
            if s.is_empty() {
                continue;
            }
            let b: Vec<_> = b.iter().filter(|x| !x.0.is_empty()).collect();
            match &b[..] {
                [(s2, Some(p2))] if s2 == s && p2 == p => {}
                _ => return Err(fail("copied", format!("{:?} was borrowed but isn't any longer", String::from_utf8_lossy(s)))),
            }
        }
    }
    Ok(())
}

const SCENES: usize = 14;

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let scene = t.draw(SCENES);
    if scene == 13 {
        return labels(t, st);
    }
    let mut s = Box::new(match scene {
        10 => flat_script(t),
        9 => real_script(t),
        4 | 11 => gen::script(t, |c, t| {
            c12::cfg(c, t);
            c.modest();
        }),
        7 | 8 => {
            let mut c = Cfg::swarm(t);
            c.modest();
            if t.draw(4) != 3 {
                c.kinds = [gen::kind::TEXT, gen::kind::BIN, gen::kind::TEXT | gen::kind::REAL][t.draw(3)];
                c.labels = 0;
            }
            let depth = if t.draw(3) == 2 { c.depth } else { 0 };
            Gen::new(t, c).sub(depth)
        }
        _ => gen::script(t, |c, t| {
            c.modest();
            c.nested_enum = t.draw(3) == 2;
            c.keys = [Keys::Any, Keys::Scalar, Keys::Text][t.draw(3)];
        }),
    });
    let (full, _, steps) = s.events_until(None);
    let a = t.draw(SOURCES);
    let b = t.draw(SINKS);
    let c = t.draw(12);
    let mask = t.u64() as u32;
    let sv = if scene == 12 {
        let c = Cfg::swarm(t);
        let depth = c.depth;
        let mut g = Gen::new(t, c);
        Some(ser::gen(&mut g, depth))
    } else {
        None
    };
    let fault = Fault::draw(t, full.len() as u64, steps, st);
    st.state(&(shape(&full), scene, a, b, c, fault));
    st.sample(|| format!("scenario {scene}/{a}/{b}/{c} fault={fault:?}: {}", show(&full)));
    let dbg = format!("{s:?}");
    let cx = |v: Violation| v.with("scenario", (scene, a, b, c)).with("fault", fault).text("script", &dbg).with("serde value", &sv).text("expected", &show(&full));
    // where everything borrowed really is
    let direct = if (5..=8).contains(&scene) {
        let mut rec = Rec::new(None);
        let _ = ctx::producing(None, || s.stream(&mut rec));
        rec.evs
    } else {
        vec![]
    };
    let watch = Watch::begin();
    let r: &Script = &s;
    let mut rec = Rec::new(fault.consumer());
    match scene {
        0 | 1 => {
            let (res, fired) = ctx::producing(fault.producer(), || c01::sink(b, a, &s, &r, &mut rec));
            judge(&s, c01::source_computed(a), fault, fired, &rec, &res).map_err(cx)?;
        }
        2 => {
            let mut m = Masked { rec, k: mask & ((1 << c02::m::COUNT) - 1) };
            let _ = ctx::producing(fault.producer(), || c01::source(a, &s, &r, &mut m));
            rec = m.rec;
            if c01::source_computed(a) {
                let own = rec.evs.iter().find(|e| match e {
                    Ev::Text(s, P::B(p)) => !s.is_empty() && !crate::mem::in_image(*p),
                    Ev::Bin(s, P::B(_)) => !s.is_empty(),
                    _ => false,
                });
                if let Some(e) = own {
                    return Err(cx(fail("conjured", format!("{e:?} was delivered as computed"))));
                }
            }
        }
        3 | 4 => {
            let n = NRec::new(if c < 3 { nm::ALL } else { mask & nm::ALL }, (mask >> 28) as u64 % 3, mask as u64 & 0xffff, None);
            let k = a % c11::ENTRIES;
            let _ = ctx::producing(fault.producer(), || c11::enter(k, &s, n.clone()));
            let lent = std::mem::take(&mut n.0.borrow_mut().lent);
            for (was, at) in &lent {
                if let Some(r) = watch.check(was, *at) {
                    return Err(cx(fail("conjured", r)));
                }
                if (k == 2 || k == 5) && !was.is_empty() && !crate::mem::in_image(*at) {
                    return Err(cx(fail("conjured", format!("{:?} was delivered as computed", String::from_utf8_lossy(was)))));
                }
            }
        }
        5 | 6 => {
            // through a buffer that is gone by the time the consumer looks again
            let (got, fired) = ctx::producing(fault.producer(), || -> Result<sval::Result, String> {
                let e = |e: sval_buffer::Error| e.to_string();
                Ok(match c {
                    0 | 1 => sval_ref::stream_ref(&mut rec, ValueBuf::collect(r).map_err(e)?),
                    2 | 3 => sval_ref::stream_ref(&mut rec, Value::collect(r).map_err(e)?),
                    4 => sval_ref::stream_ref(&mut rec, ValueBuf::collect(r).map_err(e)?.to_value()),
                    5 => sval_ref::stream_ref(&mut rec, ValueBuf::collect(r).map_err(e)?.into_value()),
                    6 => sval_ref::stream_ref(&mut rec, &Value::collect(r).map_err(e)?.clone()),
                    7 => {
                        let mut b = ValueBuf::new();
                        c01::source(a % 10, &s, &r, &mut b).map_err(|_| String::new())?;
                        sval_ref::stream_ref(&mut rec as &mut dyn sval_dynamic::Stream, &b)
                    }
                    8 => {
                        // twice through
                        let one = Box::new(Value::collect(r).map_err(e)?);
                        let two = ValueBuf::collect(&one).map_err(e)?;
                        let three = two.into_owned().map_err(e)?;
                        let mut inner = Rec::new(None);
                        let _ = sval_ref::stream_ref(&mut inner, &three);
                        sval_ref::stream_ref(&mut rec, &*one)
                    }
                    9 => sval_ref::stream_ref(&mut rec, [sval_ref::Ref::new(r)]),
                    10 => {
                        let b = Value::collect(r).map_err(e)?;
                        sval_ref::stream_ref(&mut rec, (&b, &b))
                    }
                    _ => {
                        // owned: nothing of the script's may be left in it
                        let b = ValueBuf::collect(r).map_err(e)?.into_owned().map_err(e)?;
                        sval_ref::stream_ref(&mut rec, b)
                    }
                })
            });
            if fault == Fault::None && !fired {
                match got {
                    Ok(Ok(())) => {}
                    e => return Err(cx(fail("refused", format!("{e:?}")))),
                }
                if c <= 8 {
                    kept(&direct, &rec.evs).map_err(&cx).map_err(|v| v.text("got", &show(&rec.evs)))?;
                }
                if c == 11 {
                    let own = pieces(&rec.evs).into_iter().flatten().find(|x| !x.0.is_empty() && x.1.map_or(false, |p| !crate::mem::in_image(p)));
                    if let Some(x) = own {
                        return Err(cx(fail("conjured", format!("{:?} is borrowed from an owned buffer", String::from_utf8_lossy(&x.0)))));
                    }
                }
            }
        }
        7 | 8 => {
            // text and binary
            let got: Option<(Vec<u8>, usize)> = ctx::producing(fault.producer(), || {
                let txt = |x: Option<&str>| x.map(|x| (x.as_bytes().to_vec(), x.as_ptr() as usize));
                let bin = |x: Option<&[u8]>| x.map(|x| (x.to_vec(), x.as_ptr() as usize));
                match c {
                    0 | 1 => txt(r.to_text()),
                    2 => bin(r.to_binary()),
                    3 | 4 => TextBuf::collect(r).ok().and_then(|b| txt(b.as_borrowed_str())),
                    5 | 6 => BinaryBuf::collect(r).ok().and_then(|b| bin(b.as_borrowed_slice())),
                    7 => txt((r as &dyn sval_dynamic::Value).to_text()),
                    8 => TextBuf::collect(r).ok().and_then(|b| {
                        let _ = sval_ref::stream_ref(&mut rec, &b);
                        None
                    }),
                    9 => BinaryBuf::collect(r).ok().and_then(|b| {
                        let _ = sval_ref::stream_ref(&mut rec, b.clone());
                        None
                    }),
                    10 => match &s.ops[0] {
                        Op::Real(How::Inline | How::Value, v) => txt(v.to_text()),
                        _ => txt(sval_ref::to_ref(r).into_inner().to_text()),
                    },
                    _ => match &s.ops[0] {
                        Op::Real(How::Inline | How::Value, v) => bin(v.to_binary()),
                        _ => bin(r.to_binary()),
                    },
                }
            })
            .0;
            if let Some((was, at)) = got {
                st.hit("probe.borrowed_whole");
                if let Some(r) = watch.check(&was, at) {
                    return Err(cx(fail("conjured", r)));
                }
            } else if fault == Fault::None && matches!(c, 0 | 3 | 5 | 2 | 8 | 9) {
                // a text of one borrowed fragment is never copied
                let want = match (&direct[..], c) {
                    ([Ev::TextBegin(_), Ev::Text(x, P::B(p)), Ev::TextEnd], 0 | 3 | 8) => Some((x.as_bytes(), *p)),
                    ([Ev::BinBegin(_), Ev::Bin(x, P::B(p)), Ev::BinEnd], 2 | 5 | 9) => Some((&x[..], *p)),
                    _ => None,
                };
                if let Some((x, p)) = want {
                    let ok = x.is_empty() || (c >= 8 && matches!(&pieces(&rec.evs)[..], [v] if matches!(&v[..], [(y, Some(q))] if y == x && *q == p)));
                    if !ok {
                        return Err(cx(fail("copied", format!("{:?} was borrowed but isn't any longer", String::from_utf8_lossy(x)))));
                    }
                }
            }
        }
        9 => {
            let res = ctx::producing(fault.producer(), || match &s.ops[0] {
                Op::Real(_, v) => c01::stream_any(c, &**v, &mut rec),
                _ => c01::stream_any(c, r, &mut rec),
            });
            let _ = res;
        }
        10 => {
            let (res, fired) = ctx::producing(fault.producer(), || c01::sink(b, a, &s, &r, &mut rec));
            judge(&s, c01::source_computed(a), fault, fired, &rec, &res).map_err(cx)?;
        }
        11 => {
            let v = ToValue::new(ToSerialize::new(r));
            let _ = ctx::producing(fault.producer(), || crate::erase::erased(&mut rec, |e| v.stream(e)));
        }
        _ => {
            let sv = sv.as_ref().unwrap();
            let v = ToValue::new(sv);
            let _ = ctx::producing(fault.producer(), || super::c13::enter(c % 9, sv, &v, &mut rec));
            intact(&watch, &rec.evs).map_err(cx)?;
        }
    }
    intact(&watch, &rec.evs).map_err(cx).map_err(|v| v.text("got", &show(&rec.evs)))?;
    // owned captures survive their source
    if scene == 6 && fault == Fault::None {
        let held = match c % 4 {
            0 => ValueBuf::collect_owned(r).map(|b| b.into_value()),
            1 => Value::collect_owned(r),
            2 => Value::collect(r).and_then(|v| v.into_owned()),
            _ => ValueBuf::collect(r).and_then(|v| v.to_value().into_owned()),
        };
        let held = held.map_err(|e| cx(fail("refused", e.to_string())))?;
        let want = content_hints(&full);
        s.poison();
        drop(s);
        let mut rec = Rec::new(None);
        let res = held.stream(&mut rec);
        if res.is_err() {
            return Err(cx(fail("refused", "an owned buffer doesn't stream")));
        }
        if let Some(d) = diff(&want, &content_hints(&rec.evs)) {
            return Err(cx(fail("not-owned", d)));
        }
        st.hit("probe.owned");
    }
    drop(watch);
    Ok(())
}

/// A history of labels made, cloned, tagged, owned and dropped.
fn labels(t: &mut Tape, st: &mut Stats) -> Res {
    use sval::Label;
    let c = Cfg::swarm(t);
    let mut g = Gen::new(t, c);
    let texts: Vec<String> = (0..3).map(|_| g.text()).collect();
    let mut sources: Vec<String> = texts.clone();
    let n = t.range(2, 16);
    let ops: Vec<(usize, usize, usize)> = (0..n).map(|_| (t.draw(8), t.draw(8), t.draw(3))).collect();
    st.state(&(&texts, &ops));
    st.sample(|| format!("labels {texts:?}: {ops:?}"));
    let watch = Watch::begin();
    // (label, text, whether it must be static, tag)
    let mut owned: Vec<(Label<'static>, String, bool, Option<sval::Tag>)> = vec![];
    {
        let mut pool: Vec<(Label, String, bool, Option<sval::Tag>)> = vec![];
        for (op, a, b) in &ops {
            match op {
                0 => pool.push((Label::new("static"), "static".into(), true, None)),
                1 => pool.push((Label::new_computed(&sources[*b]), texts[*b].clone(), false, None)),
                2 => pool.push((Label::new_owned(sources[*b].clone()), texts[*b].clone(), false, None)),
                3 if !pool.is_empty() => {
                    let (l, x, s, g) = &pool[a % pool.len()];
                    let c = (l.clone(), x.clone(), *s, g.clone());
                    pool.push(c);
                }
                4 if !pool.is_empty() => {
                    let i = a % pool.len();
                    let (l, x, s, _) = pool.swap_remove(i);
                    let g = [sval::tags::VALUE_IDENT, sval::tags::NUMBER, sval::tags::RUST_UNIT][*b].clone();
                    pool.push((l.with_tag(&g), x, s, Some(g)));
                }
                5 if !pool.is_empty() => {
                    let i = a % pool.len();
                    drop(pool.swap_remove(i));
                }
                6 if !pool.is_empty() => {
                    let (l, x, s, g) = &pool[a % pool.len()];
                    owned.push((l.to_owned(), x.clone(), *s, g.clone()));
                }
                7 if !pool.is_empty() => {
                    let (l, x, s, g) = &pool[a % pool.len()];
                    match l.try_to_owned() {
                        Ok(l) => owned.push((l, x.clone(), *s, g.clone())),
                        Err(_) => return Err(fail("refused", "a label can't be owned").with("ops", &ops)),
                    }
                }
                _ => {}
            }
            for (l, x, s, g) in &pool {
                if l.as_str() != x || l.as_static_str().is_some() != *s || l.tag() != g.as_ref() {
                    return Err(fail("label", format!("{x:?} is now {:?} static={:?} tag={:?}", l.as_str(), l.as_static_str(), l.tag())).with("ops", &ops).with("texts", &texts));
                }
            }
        }
    }
    // what the labels were made from is overwritten
    for s in &mut sources {
        ctx::poison_str(s);
    }
    while let Some((l, x, s, g)) = owned.pop() {
        let c = l.clone();
        drop(l);
        if c.as_str() != x || c.as_static_str().is_some() != s || c.tag() != g.as_ref() {
            return Err(fail("label", format!("{x:?} is now {:?} static={:?} tag={:?}", c.as_str(), c.as_static_str(), c.tag())).with("ops", &ops).with("texts", &texts));
        }
    }
    if watch.double_free() {
        return Err(fail("double-free", "a block of memory was freed twice").with("ops", &ops).with("texts", &texts));
    }
    drop(watch);
    Ok(())
}
