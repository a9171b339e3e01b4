//! C19: the JSON reader streams the document it is given.

use super::c01::stream_any;
use super::common::*;
use crate::ev::*;
use crate::gen::{self, Gen};
use crate::proto;
use crate::run::*;
use crate::tape::Tape;
use sval_experiments::json::from_slice;

/// One lexical token of a document.
type Toks = Vec<String>;

fn number(g: &mut Gen) -> String {
    let mut s = ["", "-"][g.t.draw(2)].to_owned();
    s.push_str(["0", "1", "10", "42", "9007199254740993", "18446744073709551616", "340282366920938463463374607431768211456"][g.t.draw(7)]);
    if g.t.draw(3) == 2 {
        s.push_str([".0", ".5", ".125", ".00001", ".10"][g.t.draw(5)]);
    }
    if g.t.draw(4) == 3 {
        s.push_str(["e1", "e+10", "e-7", "e0", "e00"][g.t.draw(5)]);
    }
    s
}

/// A string token and what it means; only the escapes the reader knows.
fn string(g: &mut Gen) -> (String, String) {
    let text: String = g.text().chars().filter(|c| *c >= ' ' || matches!(c, '\n' | '\r')).collect();
    let mut s = String::from("\"");
    for c in text.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            c => s.push(c),
        }
    }
    s.push('"');
    (s, text)
}

fn text(x: &mut Vec<Ev>, s: &str) {
    x.push(Ev::TextBegin(None));
    x.push(Ev::Text(s.to_owned(), P::B(0)));
    x.push(Ev::TextEnd);
}

/// `turns` is how many more times arrays and objects may alternate.
fn value(g: &mut Gen, depth: usize, turns: usize, map: bool, d: &mut Toks, x: &mut Vec<Ev>) {
    g.spend();
    let mut k = if x.is_empty() { [6, 7, 6, 7, 0, 1, 2, 3, 4][g.t.draw(9)] } else { g.t.draw(8) };
    if k >= 6 && (depth == 0 || (turns == 0 && (k == 7) != map)) {
        k = 3;
    }
    match k {
        0 => {
            d.push("null".to_owned());
            x.push(Ev::Null);
        }
        1 => {
            d.push("true".to_owned());
            x.push(Ev::Bool(true));
        }
        2 => {
            d.push("false".to_owned());
            x.push(Ev::Bool(false));
        }
        3 => {
            let n = number(g);
            let (j, t) = (Meta::tag(sval_json::tags::JSON_NUMBER), Meta::tag(sval::tags::NUMBER));
            x.push(Ev::TaggedBegin(j.clone()));
            x.push(Ev::TaggedBegin(t.clone()));
            text(x, &n);
            x.push(Ev::TaggedEnd(t));
            x.push(Ev::TaggedEnd(j));
            d.push(n);
        }
        4 | 5 => {
            let (s, t) = string(g);
            d.push(s);
            text(x, &t);
        }
        6 => {
            let n = g.count();
            d.push("[".to_owned());
            x.push(Ev::SeqBegin(None));
            for i in 0..n {
                if i > 0 && g.left <= 0 {
                    break;
                }
                if i > 0 {
                    d.push(",".to_owned());
                }
                x.push(Ev::SeqVB);
                value(g, depth - 1, turns.saturating_sub(map as usize), false, d, x);
                x.push(Ev::SeqVE);
            }
            d.push("]".to_owned());
            x.push(Ev::SeqEnd);
        }
        _ => {
            let n = g.count();
            d.push("{".to_owned());
            x.push(Ev::MapBegin(None));
            for i in 0..n {
                if i > 0 && g.left <= 0 {
                    break;
                }
                if i > 0 {
                    d.push(",".to_owned());
                }
                let (s, t) = string(g);
                d.push(s);
                d.push(":".to_owned());
                x.push(Ev::MapKB);
                text(x, &t);
                x.push(Ev::MapKE);
                x.push(Ev::MapVB);
                value(g, depth - 1, turns.saturating_sub(!map as usize), true, d, x);
                x.push(Ev::MapVE);
            }
            d.push("}".to_owned());
            x.push(Ev::MapEnd);
        }
    }
}

/// Size hints are optional: their truth is `proto`'s to judge.
fn unsized_hints(evs: &mut [Ev]) {
    for e in evs {
        match e {
            Ev::TextBegin(n) | Ev::SeqBegin(n) | Ev::MapBegin(n) => *n = None,
            _ => {}
        }
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let mut c = gen::Cfg::swarm(t);
    c.wide_text = t.draw(4) != 3;
    c.modest();
    let depth = [2, 4, 8, 25][t.draw(4)];
    let spaced = t.draw(3) == 2;
    let mut g = Gen::new(t, c);
    let (mut d, mut full) = (vec![], vec![]);
    value(&mut g, depth, 20, false, &mut d, &mut full);
    let compact = d.concat();
    let doc = if spaced {
        let mut s = String::new();
        for i in 0..=d.len() {
            for _ in 0..t.draw(3) {
                s.push([' ', '\n', '\t', '\r'][t.draw(4)]);
            }
            if let Some(tok) = d.get(i) {
                s.push_str(tok);
            }
        }
        s
    } else {
        compact.clone()
    };
    let slice = from_slice(&doc);
    st.sample(|| format!("{doc:?}"));
    let cx = |v: Violation| v.with("document", &doc).text("expected", &show(&full));

    // a history of streamings of the same document, each through its own route and with its own fault
    for i in 0..t.range(1, 4) {
        let k = t.draw(8);
        let mut rec = Rec::new(None);
        if t.draw(2) == 1 {
            st.hit("fault.consumer_error");
            rec.fail_at = Some(pos(t, full.len() as u64));
        } else {
            st.hit("fault.none");
        }
        let fault = rec.fail_at.map_or(Fault::None, Fault::Consumer);
        st.state(&(shape(&full), spaced, k, fault));
        let res = stream_any(k, &slice, &mut rec);
        let at = |v: Violation| cx(v).with("streaming", i).with("route", k).with("fault", fault).text("got", &show(&rec.evs)).with("result", &res);
        if res.is_ok() {
            proto::check(&rec.evs).map_err(|e| at(fail("malformed", e)))?;
        }
        let mut seen = Rec { evs: rec.evs.clone(), after_what: rec.after_what.clone(), ..rec };
        unsized_hints(&mut seen.evs);
        let want = if matches!(k, 2 | 6) { unborrow(full.clone()) } else { full.clone() };
        judge_events(&want, &|| unreachable!(), fault, false, &seen, &res).map_err(at)?;
        // only text the document holds, or that lives forever, may be lent
        if let Some(e) = rec.evs.iter().find(|e| match e {
            Ev::Text(s, P::B(a)) => {
                let (lo, hi) = (doc.as_ptr() as usize, doc.as_ptr() as usize + doc.len());
                !(lo <= *a && a + s.len() <= hi) && !matches!(s.as_str(), "" | "\n" | "\r" | "\"" | "\\")
            }
            _ => false,
        }) {
            return Err(at(fail("lent", format!("{e:?} is not the document's"))));
        }
    }
    match t.draw(3) {
        // written back it is the same document
        1 => match sval_json::stream_to_string(slice) {
            Ok(s) if s == compact => st.hit("probe.round_trips"),
            r => return Err(cx(fail("round-trip", "written back it is another document")).with("written", r.map_err(|_| "error"))),
        },
        // cut inside an array or object it is no document
        2 if d.len() > 1 => {
            st.hit("fault.cut_short");
            let n = t.range(1, d.len() - 1);
            let cut = d[..n].concat();
            let mut rec = Rec::new(None);
            let res = stream_any(t.draw(8), &from_slice(&cut), &mut rec);
            if res.is_ok() {
                return Err(cx(fail("cut-short", "a document cut short was accepted")).with("cut", &cut).text("got", &show(&rec.evs)));
            }
        }
        _ => {}
    }
    Ok(())
}
