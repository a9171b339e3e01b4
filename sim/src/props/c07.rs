//! C07: a consumer's error stops the stream at once and reaches the caller, at every possible call.
//!
//! One run is one value, one source and one stack of layers; the consumer is made to fail at every call it gets
//! (a drawn set of them for long streams).

use super::c01::{self, SINKS, SOURCES};
use super::c02::{self, Masked};
use super::c06::Fmt;
use super::common::*;
use super::{c05, c10, c11, c12, c13};
use crate::ctx;
use crate::derived;
use crate::ev::*;
use crate::gen::{self, Cfg, Gen, Keys};
use crate::nest::{m as nm, NRec};
use crate::real::Real;
use crate::run::*;
use crate::script::*;
use crate::ser;
use crate::tape::Tape;
use sval_serde::{ToSerialize, ToValue};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// What one execution looked like.
#[derive(Debug)]
struct Out {
    ok: bool,
    failed: bool,
    after: u64,
    what: String,
    calls: u64,
    /// Whatever the consumer accepted, in order.
    evs: Vec<Ev>,
    text: Vec<u8>,
    log: Vec<&'static str>,
}

fn rec(r: Rec, res: sval::Result) -> Out {
    Out { ok: res.is_ok(), failed: r.failed, after: r.after, what: format!("{:?}", r.after_what), calls: r.calls, evs: r.evs, text: vec![], log: vec![] }
}

fn text(w: Fmt, ok: bool) -> Out {
    Out { ok, failed: w.failed, after: w.after as u64, what: String::new(), calls: w.calls as u64, evs: vec![], text: w.got.into_bytes(), log: vec![] }
}

fn fmtw(fail_at: Option<u64>) -> Fmt {
    Fmt { got: String::new(), calls: 0, fail_call: fail_at.map(|k| k as usize), failed: false, after: 0, at_fail: 0 }
}

/// An `io::Write` that fails for good at its k-th call.
struct Pipe {
    got: Vec<u8>,
    calls: u64,
    fail_at: Option<u64>,
    failed: bool,
    after: u64,
}

#[derive(Clone)]
struct Io(Rc<RefCell<Pipe>>);

impl io::Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ctx::tick();
        let p = &mut *self.0.borrow_mut();
        if p.failed {
            p.after += 1;
            return Ok(b.len());
        }
        let n = p.calls;
        p.calls += 1;
        if Some(n) == p.fail_at {
            p.failed = true;
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated"));
        }
        p.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const SCENES: usize = 16;

/// A value to flatten something out of.
pub fn flat_script(t: &mut Tape) -> Script {
    let mut c = Cfg::swarm(t);
    c.nested_enum = t.draw(3) == 2;
    let depth = c.depth;
    let mut g = Gen::new(t, c);
    let r = if g.t.draw(3) != 2 {
        Real::Flat(g.flat(depth, None))
    } else {
        g.c.flat = true;
        let shape = derived::FLAT.start + g.t.draw(derived::FLAT.len());
        let n = g.int() as i64;
        Real::Derived(derived::build(shape, n, String::new(), || g.sub(depth)))
    };
    Script { ops: vec![Op::Real(How::Inline, Box::new(r))] }
}

/// A value that is all built-in types.
pub fn real_script(t: &mut Tape) -> Script {
    let mut c = Cfg::swarm(t);
    c.kinds |= gen::kind::REAL;
    c.nested_enum = t.draw(3) == 2;
    let depth = c.depth;
    let mut g = Gen::new(t, c);
    let mut ops = vec![];
    g.real(depth, false, &mut ops);
    Script { ops }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let scene = t.draw(SCENES);
    let s = Box::new(match scene {
        14 => flat_script(t),
        13 | 15 => real_script(t),
        5 | 6 | 7 => gen::script(t, c05::cfg),
        4 | 9 => gen::script(t, c12::cfg),
        _ => gen::script(t, |c, t| {
            c.nested_enum = t.draw(3) == 2;
            c.keys = [Keys::Any, Keys::Scalar, Keys::Text][t.draw(3)];
        }),
    });
    let r: &Script = &s;
    let a = t.draw(SOURCES);
    let b = t.draw(SINKS);
    let c = t.draw(12);
    let mask = t.u64() as u32;
    let sv = if scene == 10 {
        let c = Cfg::swarm(t);
        let depth = c.depth;
        let mut g = Gen::new(t, c);
        Some(ser::gen(&mut g, depth))
    } else {
        None
    };
    let go = |k: Option<u64>| -> Option<Out> {
        let mut rc = Rec::new(k);
        Some(match scene {
            0 | 1 | 14 | 15 => {
                let res = c01::sink(b, a, &s, &r, &mut rc);
                rec(rc, res)
            }
            2 => {
                let mut m = Masked { rec: rc, k: if c < 3 { 0 } else { mask & ((1 << c02::m::COUNT) - 1) } };
                let res = c01::source(a, &s, &r, &mut m);
                rec(m.rec, res)
            }
            3 => {
                let n = NRec::new(if c < 3 { nm::ALL } else { mask & nm::ALL }, (mask >> 28) as u64 % 3, mask as u64 & 0xffff, k);
                let res = c11::enter(a % c11::ENTRIES, &s, n.clone());
                let cx = n.0.borrow();
                Out { ok: res.is_ok(), failed: cx.failed, after: cx.after, what: String::new(), calls: cx.calls, evs: vec![], text: vec![], log: vec![] }
            }
            4 => {
                let w = ser::R::new(k);
                let res = c12::enter(a % c12::ENTRIES, &s, w.clone());
                let cx = w.0.borrow();
                if k.is_none() && res.is_err() {
                    // no serde equivalent
                    return None;
                }
                Out { ok: res.is_ok(), failed: cx.failed, after: cx.after, what: String::new(), calls: cx.log.len() as u64, evs: vec![], text: vec![], log: cx.log.clone() }
            }
            5 | 6 => {
                let mut w = fmtw(k);
                let ok = sval_json::stream_to_fmt_write(&mut w, r).is_ok();
                if k.is_none() && !ok {
                    return None;
                }
                text(w, ok)
            }
            7 => {
                let p = Io(Rc::new(RefCell::new(Pipe { got: vec![], calls: 0, fail_at: k, failed: false, after: 0 })));
                let ok = sval_json::stream_to_io_write(p.clone(), r).is_ok();
                if k.is_none() && !ok {
                    return None;
                }
                let p = p.0.borrow();
                Out { ok, failed: p.failed, after: p.after, what: String::new(), calls: p.calls, evs: vec![], text: p.got.clone(), log: vec![] }
            }
            8 => {
                let mut w = fmtw(k);
                let ok = c10::write(c % 7, &s, &mut w).0.is_ok();
                text(w, ok)
            }
            9 => {
                // out to serde and back
                let v = ToValue::new(ToSerialize::new(r));
                let res = crate::erase::erased(&mut rc, |e| sval::Value::stream(&v, e));
                if k.is_none() && res.is_err() {
                    return None;
                }
                rec(rc, res)
            }
            10 => {
                let sv = sv.as_ref().unwrap();
                let w = ToValue::new(sv);
                let res = c13::enter(c % 9, sv, &w, &mut rc);
                rec(rc, res)
            }
            11 => {
                // from a buffer
                let res = match c {
                    0 | 1 | 2 => sval_buffer::Value::collect(r).map(|v| c01::stream_any(c + a, &v, &mut rc)),
                    3 | 4 => sval_buffer::ValueBuf::collect(r).map(|v| c01::stream_any(c + a, &v, &mut rc)),
                    5 | 6 => sval_buffer::Value::collect_owned(r).map(|v| c01::stream_any(c + a, &v, &mut rc)),
                    7 => sval_buffer::ValueBuf::collect(r).map(|v| sval_ref::stream_ref(&mut rc, &v)),
                    _ => sval_buffer::Value::collect(r).map(|v| sval_ref::stream_ref(&mut rc, &v)),
                };
                match res {
                    Ok(res) => rec(rc, res),
                    Err(_) => return None,
                }
            }
            12 => {
                // text and binary on its own
                let txt: String = show(&s.events()).chars().take(mask as usize % 24).collect();
                let res = match c {
                    0 | 1 => c01::stream_any(a, &sval_json::JsonStr::new(&txt), &mut rc),
                    2 => c01::stream_any(a, &sval_fmt::DebugToValue::new(&txt), &mut rc),
                    3 => c01::stream_any(a, sval_fmt::DisplayToValue::new_borrowed(&txt), &mut rc),
                    4 => sval_fmt::stream_debug(&mut rc, (&txt, mask)),
                    5 => sval_fmt::stream_display(&mut rc, format_args!("{txt}{mask}")),
                    6 => match sval_buffer::TextBuf::collect(txt.as_str()) {
                        Ok(b) => c01::stream_any(a, &b, &mut rc),
                        Err(_) => return None,
                    },
                    7 => match sval_buffer::BinaryBuf::collect(sval::BinarySlice::new(txt.as_bytes())) {
                        Ok(b) => c01::stream_any(a, &b, &mut rc),
                        Err(_) => return None,
                    },
                    8 => sval::stream_display(&mut rc, format_args!("{txt}{mask}")),
                    9 => sval::stream_number(&mut rc, mask),
                    10 => c01::stream_any(a, &sval::Display::new(&txt), &mut rc),
                    _ => c01::stream_any(a, sval::Display::new_borrowed(&txt), &mut rc),
                };
                rec(rc, res)
            }
            _ => {
                // straight into a real value
                let res = match &s.ops[0] {
                    Op::Real(_, v) => c01::stream_any(c, &**v, &mut rc),
                    _ => c01::stream_any(c, r, &mut rc),
                };
                rec(rc, res)
            }
        })
    };
    let clean = match go(None) {
        Some(o) => o,
        None => {
            st.hit("probe.not_representable");
            return Ok(());
        }
    };
    let cx = |v: Violation| v.with("scenario", (scene, a, b, c)).with("script", &s).with("serde value", &sv).text("calls without a fault", &show(&clean.evs)).with("text without a fault", String::from_utf8_lossy(&clean.text));
    if !clean.ok || clean.failed {
        return Err(cx(fail("unexpected-error", "streaming failed although nothing failed")));
    }
    let n = clean.calls;
    st.state(&(shape(&clean.evs), &clean.text, &clean.log, scene, a, b, c));
    st.sample(|| format!("scenario {scene}/{a}/{b}/{c}, failing at each of {n} calls: {}", show(&clean.evs)));
    // fewer for the big ones
    #[allow(non_snake_case)]
    let ALL: u64 = 40.min(4 + 400_000 / (n + ctx::ticks() + 1));
    let ks: Vec<u64> = if n <= ALL { (0..n).collect() } else { (0..ALL).map(|_| pos(t, n)).collect() };
    for k in ks {
        let o = match go(Some(k)) {
            Some(o) => o,
            None => return Err(cx(fail("unexpected-error", "the same value streams differently"))),
        };
        st.hit("fault.consumer_error");
        let cx = |v: Violation| cx(v).with("consumer fails at call", k).text("calls", &show(&o.evs)).with("text", String::from_utf8_lossy(&o.text));
        if !o.failed {
            return Err(cx(fail("calls-differ", "the call that should fail was never made")));
        }
        if o.after > 0 {
            return Err(cx(fail("called-after-failure", format!("{} call(s) after the consumer failed, first: {}", o.after, o.what))));
        }
        if o.ok {
            return Err(cx(fail("error-swallowed", "the consumer failed but the caller got Ok")));
        }
        if !clean.text.starts_with(&o.text) || !clean.log.starts_with(&o.log) || !no_addr(&clean.evs).starts_with(&no_addr(&o.evs)) {
            return Err(cx(fail("not-a-prefix", "what the consumer accepted before failing is not how the stream begins without the fault")));
        }
    }
    Ok(())
}
