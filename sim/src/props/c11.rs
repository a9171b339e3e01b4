//! C11: the nested view of a stream has the same structure and data.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen;
use crate::nest::*;
use crate::proto;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval_nested::Stream;

pub const ENTRIES: usize = 7;

pub fn enter(k: usize, s: &Script, r: NRec) -> sval_nested::Result<proto::N> {
    match k {
        0 => sval_nested::stream_ref(r, s),
        1 => sval_nested::stream(r, sval_ref::to_ref(s)),
        2 => sval_nested::stream_computed(r, s),
        3 => r.value_ref(s),
        4 => r.value(sval_ref::to_ref(s)),
        5 => r.value_computed(s),
        _ => sval_nested::stream_ref(r, s as &dyn sval_dynamic::Value),
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = gen::script(t, |c, t| {
        c.crowded(t);
        c.nested_enum = t.draw(2) == 1;
        c.empty_enum = t.draw(4) == 3;
    });
    one(t, st, s, false)
}

/// Without an allocator, text that isn't borrowed for long enough can't be kept, and nor can parts that an erased
/// consumer gets one call at a time.
pub fn no_room(s: &Script, evs: &[Ev], erased: bool, short: bool) -> bool {
    cfg!(not(feature = "full"))
        && (erased && s.ops.iter().any(|o| !matches!(o, Op::Call(_))) || short && evs.iter().any(|e| matches!(e, Ev::Text(..) | Ev::Bin(..))))
}

/// Judge one value; `refusable` if it may be refused for want of an allocator.
pub fn one(t: &mut Tape, st: &mut Stats, s: Script, refusable: bool) -> Res {
    let (evs, _, steps) = s.events_until(None);
    let tree = proto::parse_void(&evs).map_err(|e| fail("harness", e).text("events", &show(&evs)))?;
    let mask = match t.draw(3) {
        0 => m::ALL,
        1 => 0,
        _ => t.u64() as u32 & m::ALL,
    };
    let flat = t.draw(3) as u64;
    let seed = t.draw(1 << 16) as u64;
    let k = t.draw(ENTRIES);
    let refusable = refusable || cfg!(not(feature = "full")) && mask != m::ALL || no_room(&s, &evs, matches!(k, 2 | 5 | 6), matches!(k, 2 | 5));
    let want = lower(&tree, mask);
    let fault = match t.draw(3) {
        0 => Fault::None,
        1 => {
            // how many calls a fault-free run makes
            let probe = NRec::new(mask, flat, seed, None);
            let _ = enter(k, &s, probe.clone());
            let n = probe.0.borrow().calls;
            Fault::Consumer(pos(t, n))
        }
        _ => Fault::Producer(pos(t, steps)),
    };
    st.hit(match fault {
        Fault::None => "fault.none",
        Fault::Consumer(_) => "fault.consumer_error",
        Fault::Producer(_) => "fault.producer_error",
    });
    let rec = NRec::new(mask, flat, seed, fault.consumer());
    let (got, fired) = ctx::producing(fault.producer(), || enter(k, &s, rec.clone()));
    st.state(&(shape(&evs), mask, flat, k, fault));
    st.sample(|| format!("entry={k} methods={mask:x} fault={fault:?}: {}", show(&evs)));
    let cx = rec.0.borrow();
    let v = |v: Violation| {
        v.with("entry point", k).with("methods", format!("{mask:x}")).with("flat", flat).with("fault", fault).with("script", &s).text("events", &show(&evs)).with("got", &got)
    };
    if let Some(p) = &cx.problem {
        return Err(v(fail("handed-over", p.clone())));
    }
    if cx.after > 0 {
        return Err(v(fail("called-after-failure", format!("{} call(s) after the consumer failed", cx.after))));
    }
    match fault {
        Fault::Consumer(_) if cx.failed => {
            if got.is_ok() {
                return Err(v(fail("error-swallowed", "the consumer failed but the caller got Ok")));
            }
        }
        Fault::Producer(_) if fired => {
            if got.is_ok() {
                return Err(v(fail("error-swallowed", "the value failed but the caller got Ok")));
            }
        }
        _ if refusable && got.is_err() => st.hit("probe.refused"),
        Fault::Producer(_) => return Err(v(fail("value-not-streamed", "the value was not streamed up to its failing step"))),
        _ => match &got {
            Err(e) => return Err(v(fail("refused", format!("{e}")))),
            Ok(g) => {
                if let Some(d) = tree_diff(&want, g) {
                    return Err(v(fail("tree-differs", d)));
                }
            }
        },
    }
    Ok(())
}
