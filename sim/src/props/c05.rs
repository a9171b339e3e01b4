//! C05: JSON output is well formed and means the value, whatever the delivery schedule.

use super::common::*;
use crate::ev::*;
use crate::gen::{self, Keys};
use crate::json;
use crate::proto;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;

pub fn cfg(c: &mut gen::Cfg, t: &mut Tape) {
    c.nested_enum = t.draw(3) == 2;
    c.keys = [Keys::Scalar, Keys::Text, Keys::Any][t.draw(3)];
    c.json_tags = t.draw(3) == 2;
    c.nannum = t.draw(8) == 7;
}

pub const ENTRIES: usize = 10;

/// Every way of getting the document.
#[cfg(not(feature = "full"))]
pub fn document(k: usize, s: &Box<Script>) -> Result<Vec<u8>, String> {
    let r: &Script = s;
    let mut o = String::new();
    match k {
        0 | 1 => sval_json::stream_to_fmt_write(&mut o, r),
        2 | 3 => sval_json::stream_to_fmt_write(&mut o as &mut dyn std::fmt::Write, r),
        4 | 5 => sval_json::stream_to_fmt_write(&mut o, r as &dyn sval_dynamic::Value),
        6 | 7 => sval_json::stream_to_fmt_write(&mut o, sval_ref::to_ref(r)),
        _ => sval_json::stream_to_fmt_write(&mut o, &r),
    }
    .map_err(|e| e.to_string())?;
    Ok(o.into_bytes())
}

/// Every way of getting the document.
#[cfg(feature = "full")]
pub fn document(k: usize, s: &Box<Script>) -> Result<Vec<u8>, String> {
    let r: &Script = s;
    let e = |e: sval_json::Error| e.to_string();
    Ok(match k {
        0 => sval_json::stream_to_string(r).map_err(e)?.into_bytes(),
        1 => sval_json::stream_to_vec(r).map_err(e)?,
        2 => sval_json::stream_to_json_str(r).map_err(e)?.as_bytes().to_vec(),
        3 => {
            let mut o = String::new();
            sval_json::stream_to_fmt_write(&mut o, r).map_err(e)?;
            o.into_bytes()
        }
        4 => {
            let mut o = Vec::new();
            sval_json::stream_to_io_write(&mut o, r).map_err(e)?;
            o
        }
        5 => sval_json::stream_to_string(r as &dyn sval_dynamic::Value).map_err(e)?.into_bytes(),
        6 => sval_json::stream_to_string(&s).map_err(e)?.into_bytes(),
        7 => sval_json::stream_to_string(sval_ref::to_ref(r)).map_err(e)?.into_bytes(),
        8 => {
            // embedded: a document inside a sequence is the same document
            let j = sval_json::stream_to_json_str(r).map_err(e)?;
            let o = sval_json::stream_to_string(&[&*j][..]).map_err(e)?;
            if !o.starts_with('[') || !o.ends_with(']') {
                return Ok(o.into_bytes());
            }
            o[1..o.len() - 1].as_bytes().to_vec()
        }
        _ => {
            // re-delivered from a buffer
            let b = sval_buffer::Value::collect(r).map_err(|e| format!("buffer: {e}"))?;
            sval_json::stream_to_string(&b).map_err(e)?.into_bytes()
        }
    })
}

/// The same value by the plainest schedule: whole computed text, no hints, no recursion.
fn plain(evs: &[Ev]) -> Box<Script> {
    let mut out = vec![];
    for e in content(evs) {
        let begin = matches!(out.last(), Some(Ev::TextBegin(_)));
        if begin && matches!(e, Ev::TextEnd) {
            // keep empty text empty
        }
        out.push(e);
    }
    Box::new(Script::call(out))
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = Box::new(gen::script(t, |c, t| {
        cfg(c, t);
        c.crowded(t);
    }));
    let evs = s.events();
    let k = t.draw(ENTRIES);
    st.state(&(shape(&evs), k));
    st.sample(|| format!("entry={k}: {}", show(&evs)));
    let tree = proto::parse(&evs).map_err(|e| fail("harness", e).text("events", &show(&evs)))?;
    let want = json::expect(&tree);
    let got = document(k, &s);
    let cx = |v: Violation| v.with("entry point", k).with("script", &s).text("events", &show(&evs)).with("document", got.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()));
    match (&want, &got) {
        (Err(_), Err(_)) => st.hit("probe.invalid_key"),
        (Err(_), Ok(_)) => return Err(cx(fail("bad-key-accepted", "a map key that is not a scalar was written"))),
        (Ok(_), Err(e)) => return Err(cx(fail("refused", format!("a representable value was refused: {e}")))),
        (Ok(e), Ok(b)) => {
            let j = json::parse(b).map_err(|m| cx(fail("malformed", m)))?;
            if let Some(d) = json::compare(e, &j, "$") {
                return Err(cx(fail("meaning", d)));
            }
            st.hit("probe.documents");
        }
    }
    if t.draw(2) == 1 {
        let p = plain(&evs);
        let k2 = t.draw(5);
        let again = document(k2, &p);
        if again.is_err() != got.is_err() || (got.is_ok() && again != got) {
            return Err(cx(fail("schedule", format!("the plain schedule gives {:?}", again.map(|b| String::from_utf8_lossy(&b).into_owned())))));
        }
    }
    Ok(())
}
