//! C03: a buffered value replays exactly what was captured, over histories of captures, failures and reuse.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval::Value as _;
use sval_buffer::{Value, ValueBuf};

/// Either of the two buffer types.
enum Held<'a> {
    Buf(ValueBuf<'a>),
    Val(Value<'a>),
}

impl<'a> Held<'a> {
    fn into_owned(self) -> Result<Held<'static>, String> {
        match self {
            Held::Buf(b) => b.into_owned().map(Held::Buf).map_err(|e| e.to_string()),
            Held::Val(b) => b.into_owned().map(Held::Val).map_err(|e| e.to_string()),
        }
    }
    fn step(self, k: usize) -> Held<'a> {
        match (self, k) {
            (Held::Buf(b), 0) => Held::Val(b.to_value()),
            (Held::Buf(b), _) => Held::Val(b.into_value()),
            (Held::Val(b), _) => Held::Val(b.clone()),
        }
    }
    fn recollect<'b>(&'b self, k: usize) -> Result<Held<'b>, String> {
        fn c<'b, V: sval::Value + ?Sized>(v: &'b V, k: usize) -> Result<Held<'b>, String> {
            match k {
                0 => ValueBuf::collect(v).map(Held::Buf),
                1 => Value::collect(v).map(Held::Val),
                2 => ValueBuf::collect_owned(v).map(Held::Buf),
                _ => sval_buffer::stream_to_value(v).map(Held::Buf),
            }
            .map_err(|e| e.to_string())
        }
        match self {
            Held::Buf(b) => c(b, k),
            Held::Val(b) => c(b, k),
        }
    }
    fn replay<'b>(&'b self, route: usize, rec: &mut Rec) -> sval::Result {
        fn r<'b, V: sval::Value>(v: &'b V, route: usize, rec: &mut Rec) -> sval::Result {
            use sval::Stream;
            match route {
                0 => v.stream(rec),
                1 => rec.value(v),
                2 => rec.value_computed(v),
                _ => v.stream(&mut (rec as &mut dyn sval_dynamic::Stream<'b>)),
            }
        }
        match (self, route) {
            (Held::Buf(b), 4) => sval_ref::ValueRef::stream_ref(b, rec),
            (Held::Val(b), 4) => sval_ref::ValueRef::stream_ref(b, rec),
            (Held::Buf(b), _) => r(b, route, rec),
            (Held::Val(b), _) => r(b, route, rec),
        }
    }
}

fn judge_replay(what: &str, want: &[Ev], h: &Held, t: &mut Tape, st: &mut Stats, calls: usize) -> Result<(usize, Option<u64>), Violation> {
    let route = t.draw(5);
    let fail_at = if t.draw(3) == 2 {
        st.hit("fault.consumer_error");
        Some(pos(t, calls as u64))
    } else {
        None
    };
    let mut rec = Rec::new(fail_at);
    let res = h.replay(route, &mut rec);
    let got = content_hints(&rec.evs);
    let cx = |v: Violation| v.text("replayed", &show(&rec.evs)).text("expected", &show(want)).text("held", what);
    if rec.failed {
        if rec.after > 0 {
            return Err(cx(fail("called-after-failure", format!("{:?}", rec.after_what))));
        }
        if res.is_ok() {
            return Err(cx(fail("error-swallowed", "replay returned Ok although the consumer failed")));
        }
        if let Some(d) = is_prefix(want, &got) {
            return Err(cx(fail("not-a-prefix", d)));
        }
    } else {
        if res.is_err() {
            return Err(cx(fail("replay-failed", "replaying a captured value failed")));
        }
        if let Some(d) = diff(want, &got) {
            return Err(cx(fail("replay-differs", d)));
        }
    }
    Ok((route, fail_at))
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let cfg = |c: &mut gen::Cfg, t: &mut Tape| c.nested_enum = t.draw(3) == 2;
    // one or two values; the first may fail part way, into the buffer that captures the second
    let mut s = Box::new(gen::script(t, |c, t| {
        cfg(c, t);
        c.crowded(t);
    }));
    let steps = s.steps();
    let evs = s.events();
    let want = content_hints(&evs);
    let mode = t.draw(9);
    let fault = if t.draw(4) == 3 {
        st.hit("fault.producer_error");
        Some(pos(t, steps))
    } else {
        None
    };
    st.state(&(shape(&evs), mode, fault));
    st.sample(|| format!("mode={mode} fault={fault:?}: {}", show(&evs)));
    let dbg = format!("{s:?}");
    let cx = |v: Violation| v.text("script", &dbg).with("capture mode", mode).with("producer fault", fault);

    // an earlier history in the same buffer
    let pre = if mode == 8 { Some(gen::script(t, cfg)) } else { None };
    let mut dirty_buf: Option<ValueBuf> = None;
    if let Some(pre) = &pre {
        let mut b = ValueBuf::new();
        let n = pre.steps();
        for _ in 0..t.range(1, 2) {
            let at = if t.draw(3) == 0 { None } else { Some(pos(t, n)) };
            if at.is_some() {
                st.hit("fault.producer_error");
            }
            let (r, fired) = ctx::producing(at, || pre.stream(&mut b));
            if fired != r.is_err() {
                return Err(cx(fail("earlier-capture", format!("the value failed: {fired}, the capture said {r:?}"))));
            }
            if t.draw(4) == 3 {
                // a protocol violation must be reported and must not poison the buffer after clear()
                use sval::Stream;
                let r = b.seq_end();
                st.hit("fault.unbalanced_call");
                if r.is_err() && t.draw(8) == 7 {
                    return match b.into_err() {
                        Some(_) => Ok(()),
                        None => Err(cx(fail("no-error", "a call to the buffer failed but it holds no error"))),
                    };
                }
            }
            b.clear();
            if t.draw(32) == 31 {
                return match b.into_err() {
                    Some(e) => Err(cx(fail("clear", format!("a cleared buffer still holds an error: {e}")))),
                    None => Ok(()),
                };
            }
            if b.is_complete() {
                return Err(cx(fail("clear", "a cleared buffer says it is complete")));
            }
            let mut rec = Rec::new(None);
            if b.stream(&mut rec).is_err() || rec.evs != [Ev::Null] {
                return Err(cx(fail("clear", format!("a cleared buffer streams {}", show(&rec.evs)))));
            }
        }
        dirty_buf = Some(b);
    }

    macro_rules! captured {
        ($r:expr) => {{
            let (r, fired) = ctx::producing(fault, || $r);
            match (r, fired) {
                (Ok(_), true) => return Err(cx(fail("truncated-capture", "the value failed part way but a buffered value was returned"))),
                (Err(_), true) => return Ok(()),
                (Err(e), false) => return Err(cx(fail("capture-failed", format!("{e}")))),
                (Ok(v), false) => v,
            }
        }};
    }

    let owned: Option<Held<'static>> = match mode {
        0 => Some(Held::Buf(captured!(ValueBuf::collect_owned(&*s)))),
        1 => Some(Held::Val(captured!(Value::collect_owned(&*s)))),
        2 => Some(Held::Buf(captured!(sval_buffer::stream_to_value_owned(&*s)))),
        _ => {
            let held: Held = match mode {
                3 => Held::Buf(captured!(ValueBuf::collect(&*s))),
                4 => Held::Val(captured!(Value::collect(&*s))),
                5 => Held::Buf(captured!(sval_buffer::stream_to_value(&*s))),
                _ => {
                    let mut b = dirty_buf.take().unwrap_or_default();
                    let src = t.draw(super::c01::SOURCES);
                    let r: &Script = &s;
                    // is_complete tells the truth at every prefix
                    let (cut, _, _) = s.events_until(fault);
                    let (res, fired) = ctx::producing(fault, || {
                        let leaked: &Script = r;
                        let mut m = &mut b;
                        if mode == 6 {
                            super::c01::source(src % 10, &s, unsafe { &*(&leaked as *const &Script) }, &mut m)
                        } else {
                            super::c01::source(src % 10, &s, unsafe { &*(&leaked as *const &Script) }, &mut (m as &mut dyn sval_dynamic::Stream))
                        }
                    });
                    if fired != res.is_err() {
                        return Err(cx(fail("capture-result", format!("the value failed: {fired}, the capture said {res:?}"))));
                    }
                    let complete = crate::proto::complete(&cut);
                    if b.is_complete() != complete {
                        return Err(cx(fail("is-complete", format!("is_complete() = {} after {}", b.is_complete(), show(&cut)))));
                    }
                    if fired {
                        return Ok(());
                    }
                    if t.draw(16) == 15 {
                        return match b.into_err() {
                            Some(e) => Err(cx(fail("capture-result", format!("the capture went well but the buffer holds an error: {e}")))),
                            None => Ok(()),
                        };
                    }
                    Held::Buf(b)
                }
            };
            let made_owned = t.draw(2) == 1;
            if made_owned {
                let held = if t.draw(2) == 1 {
                    let k = t.draw(2);
                    held.step(k)
                } else {
                    held
                };
                match held.into_owned() {
                    Ok(h) => Some(h),
                    Err(e) => return Err(cx(fail("into-owned", e))),
                }
            } else {
                // borrowed chain
                let k1 = t.draw(3);
                let held = if k1 > 0 { held.step(k1 - 1) } else { held };
                judge_replay("borrowed", &want, &held, t, st, evs.len()).map_err(cx)?;
                let k2 = t.draw(5);
                if k2 < 4 {
                    let again = held.recollect(k2).map_err(|e| cx(fail("recollect", e)))?;
                    judge_replay("collected again", &want, &again, t, st, evs.len()).map_err(cx)?;
                    let again = again.step(t.draw(2));
                    judge_replay("collected again, value", &want, &again, t, st, evs.len()).map_err(cx)?;
                }
                None
            }
        }
    };
    if let Some(h) = owned {
        // the source memory is overwritten: an owned capture must not notice
        s.poison();
        drop(s);
        judge_replay("owned", &want, &h, t, st, evs.len()).map_err(cx)?;
        let k = t.draw(4);
        if k < 3 {
            let h2 = h.step(k.min(1));
            judge_replay("owned, converted", &want, &h2, t, st, evs.len()).map_err(cx)?;
            if k == 2 {
                let h3 = h2.into_owned().map_err(|e| cx(fail("into-owned", e)))?;
                judge_replay("owned twice", &want, &h3, t, st, evs.len()).map_err(cx)?;
            }
        }
    }
    Ok(())
}
