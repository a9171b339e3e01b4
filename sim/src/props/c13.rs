//! C13: serde values stream as the equivalent sval value, and survive the round trip.

use super::c12::judge_ser;
use super::common::*;
use crate::ctx;
use crate::erase::Opaque;
use crate::ev::*;
use crate::gen::{Cfg, Gen};
use crate::run::*;
use crate::ser::{self, *};
use crate::tape::Tape;
use serde::Serialize;
use sval::{Stream, Value};
use sval_serde::{ToSerialize, ToValue};

pub fn enter<'a>(k: usize, v: &'a SV, w: &'a ToValue<&'a SV>, rec: &mut Rec) -> sval::Result {
    match k {
        0 => ToValue::new_borrowed(v).stream(rec),
        1 => w.stream(rec),
        2 => sval_serde::stream(rec, v),
        3 => sval::stream(rec, w),
        4 => rec.value(w),
        5 => rec.value_computed(w),
        6 => sval::stream(rec, w as &dyn sval_dynamic::Value),
        7 => sval_serde::stream(rec as &mut dyn sval_dynamic::Stream, v),
        #[cfg(feature = "full")]
        _ => ToValue::new_borrowed(v).stream(&mut Box::new(rec)),
        #[cfg(not(feature = "full"))]
        _ => ToValue::new_borrowed(v).stream(&mut &mut *rec),
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let c = Cfg::swarm(t);
    let depth = c.depth;
    let mut g = Gen::new(t, c);
    let sv = ser::gen(&mut g, depth);
    let (full, steps) = sv.events_until(None);
    let round = t.draw(2) == 1;
    if !round {
        let k = t.draw(9);
        let fault = Fault::draw(t, full.len() as u64, steps, st);
        let mut rec = Rec::new(fault.consumer());
        let w = ToValue::new(&sv);
        let (res, fired) = ctx::producing(fault.producer(), || enter(k, &sv, &w, &mut rec));
        st.state(&(0, shape(&full), k, fault));
        st.sample(|| format!("entry={k} fault={fault:?}: {sv:?}"));
        let cut = || sv.events_until(fault.producer()).0;
        if fault == Fault::None {
            if let Err(e) = crate::proto::check(&rec.evs) {
                return Err(fail("malformed", e).with("entry point", k).with("value", &sv).text("got", &show(&rec.evs)));
            }
        }
        return judge_events(&full, &cut, fault, fired, &rec, &res)
            .map_err(|v| v.with("entry point", k).with("fault", fault).with("value", &sv).text("expected", &show(&full)).text("got", &show(&rec.evs)));
    }
    // round trip: value -> sval -> serializer
    let direct = R::new(None);
    let want = sv.serialize(direct.clone()).map_err(|e| fail("harness", e.to_string()))?.plain();
    let k = t.draw(4);
    let enter = |r: R| -> Result<SV, E> {
        match k {
            0 => ToSerialize::new(ToValue::new(&sv)).serialize(r),
            1 => sval_serde::serialize(r, ToValue::new_borrowed(&sv)),
            2 => ToSerialize::new(Opaque(ToValue::new(ToSerialize::new(ToValue::new_borrowed(&sv) as &dyn sval_dynamic::Value)))).serialize(r),
            _ => ToSerialize::new(ToValue::new_borrowed(&sv) as &dyn sval_dynamic::Value).serialize(r),
        }
    };
    let probe = R::new(None);
    let clean = enter(probe.clone());
    let calls = probe.0.borrow().log.clone();
    if cfg!(not(feature = "full")) && clean.is_err() {
        st.hit("probe.refused");
        return Ok(());
    }
    let v = |v: Violation, got: &Result<SV, E>| v.with("round trip", k).with("value", &sv).with("got", got);
    judge_ser(&Ok(want.clone()), Fault::None, false, &probe.0.borrow(), &calls, &clean).map_err(|e| v(e, &clean))?;
    // the same calls, but for a char being text
    let dl: Vec<&str> = direct.0.borrow().log.iter().map(|c| if *c == "char" { "str" } else { *c }).collect();
    if dl != calls {
        return Err(v(fail("calls-differ", format!("directly: {dl:?}; through sval: {calls:?}")), &clean));
    }
    let fault = Fault::draw(t, calls.len() as u64, steps, st);
    st.state(&(1, shape(&full), k, fault));
    if fault == Fault::None {
        return Ok(());
    }
    let rec = R::new(fault.consumer());
    let (got, fired) = ctx::producing(fault.producer(), || enter(rec.clone()));
    let r = judge_ser(&Ok(want), fault, fired, &rec.0.borrow(), &calls, &got).map_err(|e| v(e, &got).with("fault", fault));
    r
}
