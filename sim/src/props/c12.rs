//! C12: sval values serialize through serde as the equivalent serde value, or fail.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Gen};
use crate::run::*;
use crate::script::*;
use crate::ser::*;
use crate::tape::Tape;
use serde::Serialize;

pub const ENTRIES: usize = 6;

pub fn enter(k: usize, s: &Script, r: R) -> Result<SV, E> {
    match k {
        0 => sval_serde::ToSerialize::new_borrowed(s).serialize(r),
        1 => sval_serde::ToSerialize::new(s).serialize(r),
        2 => sval_serde::serialize(r, s),
        3 => sval_serde::ToSerialize::new(s as &dyn sval_dynamic::Value).serialize(r),
        4 => sval_serde::ToSerialize::new(sval_ref::to_ref(s)).serialize(r),
        _ => (&&sval_serde::ToSerialize::new(&s)).serialize(r),
    }
}

pub fn cfg(c: &mut gen::Cfg, t: &mut Tape) {
    c.nested_enum = t.draw(4) == 3;
    c.empty_enum = t.draw(6) == 5;
    if t.draw(4) != 3 {
        // mostly values that have a serde equivalent
        c.sizes = 0;
        c.labels = 0;
        c.loose_enum = false;
        c.loose_tagged = false;
        c.numbers = false;
        c.strict_index = true;
    }
}

/// Judge one serialization: `want` is what must come out without faults.
pub fn judge_ser(want: &Result<SV, Refuse>, fault: Fault, fired: bool, rec: &RCx, full: &[&'static str], got: &Result<SV, E>) -> Res {
    if let Some(p) = &rec.problem {
        if got.is_ok() {
            return Err(fail("malformed", p.clone()));
        }
    }
    if rec.after > 0 {
        return Err(fail("called-after-failure", format!("{} call(s) after the serializer failed", rec.after)));
    }
    if !full.starts_with(&rec.log) {
        return Err(fail("not-a-prefix", format!("calls {:?} are not the start of {:?}", rec.log, full)));
    }
    match fault {
        Fault::Consumer(_) if rec.failed => {
            if got.is_ok() {
                return Err(fail("error-swallowed", "the serializer failed but the caller got Ok"));
            }
        }
        Fault::Producer(_) if fired => {
            if got.is_ok() {
                return Err(fail("error-swallowed", "the value failed but the caller got Ok"));
            }
        }
        _ => match (want, got) {
            (Ok(_), Err(e)) => return Err(fail("refused", format!("a value with a serde equivalent was refused: {e}"))),
            (Err(w), Ok(_)) => return Err(fail("accepted", format!("a value without a serde equivalent ({w:?}) was accepted"))),
            (Ok(w), Ok(g)) if w != g => return Err(fail("value-differs", format!("expected {w:?} got {g:?}"))),
            _ => {}
        },
    }
    Ok(())
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = gen::script(t, |c, t| {
        cfg(c, t);
        c.crowded(t);
    });
    one(t, st, s, false)
}

/// Judge one value; `refusable` if it may be refused for want of an allocator.
pub fn one(t: &mut Tape, st: &mut Stats, s: Script, refusable: bool) -> Res {
    let (evs, _, steps) = s.events_until(None);
    let want = of_events(&evs);
    let k = t.draw(ENTRIES);
    let refusable = refusable || super::c11::no_room(&s, &evs, k == 3, true);
    let probe = R::new(None);
    let clean = enter(k, &s, probe.clone());
    let full = probe.0.borrow().log.clone();
    let fault = Fault::draw(t, full.len() as u64, steps, st);
    st.state(&(shape(&evs), k, fault, want.is_ok()));
    st.sample(|| format!("entry={k} fault={fault:?}: {}", show(&evs)));
    st.hit(if want.is_ok() { "probe.representable" } else { "probe.not_representable" });
    let v = |v: Violation, got: &Result<SV, E>| v.with("entry point", k).with("fault", fault).with("script", &s).text("events", &show(&evs)).with("got", got);
    let want = match want {
        Ok(_) if refusable && clean.is_err() => {
            st.hit("probe.refused");
            Err(Refuse("no allocator"))
        }
        want => want,
    };
    judge_ser(&want, Fault::None, false, &probe.0.borrow(), &full, &clean).map_err(|e| v(e, &clean))?;
    if fault == Fault::None {
        return Ok(());
    }
    let rec = R::new(fault.consumer());
    let (got, fired) = ctx::producing(fault.producer(), || enter(k, &s, rec.clone()));
    judge_ser(&want, fault, fired, &rec.0.borrow(), &full, &got).map_err(|e| v(e, &got))?;
    if matches!(fault, Fault::Producer(_)) && !fired && want.is_ok() {
        return Err(v(fail("value-not-streamed", "the value was not streamed up to its failing step"), &got));
    }
    Ok(())
}

#[allow(unused)]
fn _g(_: &mut Gen) {}
