//! C14: flattening splices every nested field in once, in order, and nothing else.

use super::common::*;
use crate::ctx;
use crate::derived;
use crate::ev::*;
use crate::gen;
use crate::proto;
use crate::real::Real;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let mut c = gen::Cfg::swarm(t);
    c.crowded(t);
    one(t, st, c, false)
}

/// Judge one value; `refusable` if it may be refused for want of an allocator.
pub fn one(t: &mut Tape, st: &mut Stats, mut c: gen::Cfg, refusable: bool) -> Res {
    c.nested_enum = t.draw(3) == 2;
    c.empty_enum = t.draw(6) == 5;
    let hint_any = c.hint_any;
    let depth = c.depth;
    let mut g = gen::Gen::new(t, c);
    let r = if g.t.draw(3) != 2 {
        Real::Flat(g.flat(depth, None))
    } else {
        g.c.flat = true;
        let shape = derived::FLAT.start + g.t.draw(derived::FLAT.len());
        let n = g.int() as i64;
        Real::Derived(derived::build(shape, n, String::new(), || g.sub(depth)))
    };
    let mut s = Script { ops: vec![Op::Real(How::Inline, Box::new(r))] };
    if hint_any {
        gen::sprinkle(t, &mut s);
    }
    let (full, _, steps) = s.events_until(None);
    // the reference itself must be well formed
    proto::parse_void(&full).map_err(|e| fail("harness", e).text("events", &show(&full)))?;
    let k = t.draw(4);
    let fault = Fault::draw(t, full.len() as u64, steps, st);
    let mut rec = Rec::new(fault.consumer());
    let (res, fired) = ctx::producing(fault.producer(), || match k {
        0 => sval::stream(&mut rec, &s),
        1 => sval::stream(&mut (&mut rec as &mut dyn sval_dynamic::Stream), &s),
        2 => sval::stream(&mut rec, &s as &dyn sval_dynamic::Value),
        _ => sval_ref::stream_ref(&mut rec, sval_ref::to_ref(&s)),
    });
    st.state(&(shape(&full), k, fault));
    st.sample(|| format!("route={k} fault={fault:?}: {}", show(&full)));
    if refusable && res.is_err() && !rec.failed && !fired {
        st.hit("probe.refused");
        return match prefix_merged(&full, &rec.evs) {
            Some(d) => Err(fail("not-a-prefix", d).with("script", &s).text("expected", &show(&full)).text("got", &show(&rec.evs))),
            None => Ok(()),
        };
    }
    judge(&s, false, fault, fired, &rec, &res).map_err(|v| v.with("route", k))
}
