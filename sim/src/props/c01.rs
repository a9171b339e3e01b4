//! C01: forwarding layers deliver every event once, in order, unchanged.

use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::gen;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval::{Stream, Value};

pub const SOURCES: usize = if cfg!(feature = "full") { 14 } else { 13 };
pub const SINKS: usize = 7;

pub fn source_computed(k: usize) -> bool {
    k >= 10
}

/// Hand the value over by one of the public routes.
pub fn source<'a, S: Stream<'a> + ?Sized>(k: usize, v: &'a Box<Script>, vr: &'a &'a Script, s: &mut S) -> sval::Result {
    let d: &'a Script = &**v;
    match k {
        0 => d.stream(s),
        1 => s.value(d),
        2 => sval::stream(s, d),
        3 => sval::Value::stream(vr, s),
        #[cfg(feature = "full")]
        4 => sval::stream(s, v),
        5 => s.value(vr),
        6 => sval::stream(s, d as &'a dyn sval_dynamic::Value),
        7 => s.value(d as &'a (dyn sval_dynamic::Value + Send + Sync)),
        8 => sval_ref::stream_ref(s, sval_ref::to_ref(d)),
        9 => s.value(sval_ref::Ref::new_borrowed(d)),
        10 => s.value_computed(d),
        11 => sval::stream_computed(s, d),
        12 => sval::stream_computed(s, &d as &dyn sval_dynamic::Value),
        #[cfg(feature = "full")]
        13 => s.value_computed(v),
        _ => d.stream(s),
    }
}

/// Stream through one of the public stacks of stream layers.
pub fn sink<'a>(k: usize, src: usize, v: &'a Box<Script>, vr: &'a &'a Script, rec: &mut Rec) -> sval::Result {
    match k {
        0 => source(src, v, vr, rec),
        1 => source(src, v, vr, &mut &mut *rec),
        2 => source(src, v, vr, &mut (rec as &mut dyn sval_dynamic::Stream<'a>)),
        3 => source(src, v, vr, rec as &mut dyn sval_dynamic::Stream<'a>),
        #[cfg(feature = "full")]
        4 => source(src, v, vr, &mut Box::new(&mut *rec)),
        #[cfg(feature = "full")]
        5 => {
            let mut b: Box<dyn sval_dynamic::Stream<'a> + '_> = Box::new(&mut *rec);
            source(src, v, vr, &mut b)
        }
        6 => {
            let mut a = &mut *rec;
            let b: &mut dyn sval_dynamic::Stream<'a> = &mut a;
            source(src, v, vr, &mut &mut *b)
        }
        _ => source(src, v, vr, rec),
    }
}

/// Stream any value by one of the public routes.
pub fn stream_any<'a, V: Value>(k: usize, v: &'a V, rec: &mut Rec) -> sval::Result {
    match k % 8 {
        0 => v.stream(rec),
        1 => rec.value(v),
        2 => rec.value_computed(v),
        3 => v.stream(rec as &mut dyn sval_dynamic::Stream<'a>),
        4 => sval::stream(rec, v as &'a dyn sval_dynamic::Value),
        5 => sval_ref::stream_ref(&mut &mut *rec, sval_ref::to_ref(v)),
        6 => sval::stream_computed(&mut (rec as &mut dyn sval_dynamic::Stream<'a>), v),
        _ => (rec as &mut dyn sval_dynamic::Stream<'a>).value(v),
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = Box::new(gen::script(t, |c, t| {
        c.crowded(t);
        c.nested_enum = t.draw(3) == 2;
    }));
    let (full, _, steps) = s.events_until(None);
    let src = t.draw(SOURCES);
    let snk = t.draw(SINKS);
    let fault = Fault::draw(t, full.len() as u64, steps, st);
    let mut rec = Rec::new(fault.consumer());
    let r: &Script = &s;
    let (res, fired) = ctx::producing(fault.producer(), || sink(snk, src, &s, &r, &mut rec));
    st.state(&(shape(&full), src, snk, fault));
    st.sample(|| format!("source={src} sink={snk} fault={fault:?}: {}", show(&full)));
    judge(&s, source_computed(src), fault, fired, &rec, &res)
        .map_err(|v| v.with("source layer", src).with("sink layer", snk))?;

    // conversions agree through every layer
    if t.draw(4) == 3 && full.len() < 20_000 {
        let pick = s.ops.iter().find_map(|o| if let Op::Real(_, r) = o { Some(r) } else { None });
        let check = |what: &str, a: &Conv, b: &Conv| -> Res {
            if a != b {
                return Err(fail("conversions-differ", format!("through {what}: {b:?} but directly: {a:?}")).with("script", &s));
            }
            if let (Some(x), Some(y)) = (&a.text, &b.text) {
                if x.1 != y.1 {
                    return Err(fail("conversions-differ", format!("to_text through {what} points elsewhere")).with("script", &s));
                }
            }
            Ok(())
        };
        match pick {
            Some(r) => {
                let r: &crate::real::Real = &**r;
                layers(r, &check)?;
            }
            None => layers(r, &check)?,
        }
        st.hit("probe.conversions");
    }
    Ok(())
}

fn layers<V: sval::Value + Send + Sync + 'static>(v: &V, check: &dyn Fn(&str, &Conv, &Conv) -> Res) -> Res {
    let a = conv(v);
    check("&", &a, &conv(&v))?;
    check("&&", &a, &conv(&&v))?;
    #[cfg(feature = "full")]
    check("Box", &a, &conv(&Box::new(v)))?;
    check("dyn Value", &a, &conv(v as &dyn sval_dynamic::Value))?;
    check("dyn Value + Send", &a, &conv(v as &(dyn sval_dynamic::Value + Send)))?;
    check("dyn Value + Send + Sync", &a, &conv(v as &(dyn sval_dynamic::Value + Send + Sync)))?;
    check("Ref", &a, &conv(sval_ref::Ref::new_borrowed(v)))?;
    check("Ref<&>", &a, &conv(&sval_ref::to_ref(v)))?;
    Ok(())
}
