//! C10: formatting writes the same text for every schedule, and a prefix on failure.

use super::c06::Fmt;
use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::fmtref::{self, Floats, Tk, C};
use crate::gen::{self, Keys};
use crate::proto;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use sval_fmt::TokenWrite;
use std::fmt::{self, Write as _};

fn cfg(c: &mut gen::Cfg, t: &mut Tape) {
    c.crowded(t);
    c.keys = [Keys::Any, Keys::Scalar, Keys::Text][t.draw(3)];
    c.json_tags = t.draw(4) == 3;
    c.misnumbered = t.draw(8) == 7;
    c.empty_enum = t.draw(4) == 3;
}

/// A token-aware writer: every token it is given, failing at its k-th one.
pub struct Toks {
    toks: Vec<Tk>,
    raw: usize,
    calls: usize,
    fail_call: Option<usize>,
    failed: bool,
    after: usize,
}

fn toks(fail_call: Option<usize>) -> Toks {
    Toks { toks: vec![], raw: 0, calls: 0, fail_call, failed: false, after: 0 }
}

impl Toks {
    fn tok(&mut self, c: C, s: &str) -> fmt::Result {
        ctx::tick();
        if self.failed {
            self.after += 1;
            return Ok(());
        }
        let n = self.calls;
        self.calls += 1;
        if Some(n) == self.fail_call {
            self.failed = true;
            return Err(fmt::Error);
        }
        fmtref::push(&mut self.toks, c, s);
        Ok(())
    }
}

impl fmt::Write for Toks {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        // everything has a token class: nothing may be written around it
        self.raw += 1;
        Ok(())
    }
}

fn class(t: &sval::Tag) -> C {
    use sval_fmt::tags;
    if *t == tags::NUMBER {
        C::Num
    } else if *t == tags::ATOM {
        C::Atom
    } else if *t == tags::IDENT {
        C::Ident
    } else if *t == tags::PUNCT {
        C::Punct
    } else if *t == tags::WS {
        C::Ws
    } else {
        C::Text
    }
}

impl TokenWrite for Toks {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
        self.tok(class(tag), &token.to_string())
    }
}

/// A token-aware writer that overrides every structural callback.
struct Structural {
    toks: Toks,
    /// Whether each open level had an entry yet.
    stack: Vec<bool>,
    /// Whether `is_first` or `is_empty` was ever wrong.
    bad: bool,
}

impl fmt::Write for Structural {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.toks.write_str(s)
    }
}

macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, v: $t) -> fmt::Result { self.toks.tok(C::Num, &v.to_string()) })* };
}

impl Structural {
    fn first(&mut self, is_first: bool) {
        let bad = match self.stack.last_mut() {
            Some(seen) => {
                let bad = *seen == is_first;
                *seen = true;
                bad
            }
            None => true,
        };
        self.bad |= bad;
    }
    fn open(&mut self) {
        self.stack.push(false);
    }
    fn close(&mut self, is_empty: bool) {
        self.bad |= self.stack.pop() != Some(!is_empty);
    }
}

impl TokenWrite for Structural {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
        self.toks.tok(class(tag), &token.to_string())
    }
    num!(write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_u128 u128, write_i8 i8, write_i16 i16, write_i32 i32, write_i64 i64, write_i128 i128, write_f32 f32, write_f64 f64);
    fn write_number<N: fmt::Display>(&mut self, n: N) -> fmt::Result {
        self.toks.tok(C::Num, &n.to_string())
    }
    fn write_null(&mut self) -> fmt::Result {
        self.toks.tok(C::Atom, "()")
    }
    fn write_bool(&mut self, v: bool) -> fmt::Result {
        self.toks.tok(C::Atom, if v { "true" } else { "false" })
    }
    fn write_atom<A: fmt::Display>(&mut self, _: A) -> fmt::Result {
        panic!("null and bool are overridden")
    }
    fn write_type(&mut self, ty: &str) -> fmt::Result {
        self.toks.tok(C::Ident, ty)
    }
    fn write_text(&mut self, s: &str) -> fmt::Result {
        let e: String = s.chars().flat_map(|c| c.escape_debug()).collect();
        self.toks.tok(C::Text, &e)
    }
    fn write_map_begin(&mut self) -> fmt::Result {
        self.open();
        self.toks.tok(C::Punct, "{")
    }
    fn write_map_key_begin(&mut self, is_first: bool) -> fmt::Result {
        self.first(is_first);
        if !is_first {
            self.toks.tok(C::Punct, ",")?;
        }
        self.toks.tok(C::Ws, " ")
    }
    fn write_map_value_begin(&mut self, _: bool) -> fmt::Result {
        self.toks.tok(C::Punct, ":")?;
        self.toks.tok(C::Ws, " ")
    }
    fn write_map_end(&mut self, is_empty: bool) -> fmt::Result {
        self.close(is_empty);
        if !is_empty {
            self.toks.tok(C::Ws, " ")?;
        }
        self.toks.tok(C::Punct, "}")
    }
    fn write_record_type(&mut self, ty: &str) -> fmt::Result {
        self.toks.tok(C::Ident, ty)?;
        self.toks.tok(C::Ws, " ")
    }
    fn write_record_begin(&mut self) -> fmt::Result {
        self.open();
        self.toks.tok(C::Punct, "{")
    }
    fn write_record_value_begin(&mut self, field: &str, is_first: bool) -> fmt::Result {
        self.first(is_first);
        if !is_first {
            self.toks.tok(C::Punct, ",")?;
        }
        self.toks.tok(C::Ws, " ")?;
        self.toks.tok(C::Ident, field)?;
        self.toks.tok(C::Punct, ":")?;
        self.toks.tok(C::Ws, " ")
    }
    fn write_record_end(&mut self, is_empty: bool) -> fmt::Result {
        self.close(is_empty);
        if !is_empty {
            self.toks.tok(C::Ws, " ")?;
        }
        self.toks.tok(C::Punct, "}")
    }
    fn write_seq_begin(&mut self) -> fmt::Result {
        self.open();
        self.toks.tok(C::Punct, "[")
    }
    fn write_seq_value_begin(&mut self, is_first: bool) -> fmt::Result {
        self.first(is_first);
        if !is_first {
            self.toks.tok(C::Punct, ",")?;
            self.toks.tok(C::Ws, " ")?;
        }
        Ok(())
    }
    fn write_seq_end(&mut self, is_empty: bool) -> fmt::Result {
        self.close(is_empty);
        self.toks.tok(C::Punct, "]")
    }
    fn write_tuple_begin(&mut self) -> fmt::Result {
        self.open();
        self.toks.tok(C::Punct, "(")
    }
    fn write_tuple_value_begin(&mut self, is_first: bool) -> fmt::Result {
        self.first(is_first);
        if !is_first {
            self.toks.tok(C::Punct, ",")?;
            self.toks.tok(C::Ws, " ")?;
        }
        Ok(())
    }
    fn write_tuple_end(&mut self, is_empty: bool) -> fmt::Result {
        // the value of a labelled tag is also written as a tuple, without being announced as its element
        let seen = self.stack.pop();
        self.bad |= match seen {
            Some(true) => is_empty,
            Some(false) => false,
            None => true,
        };
        self.toks.tok(C::Punct, ")")
    }
}

/// Calls `stream_to_fmt` from inside a formatter.
struct ViaFmt<'a, V>(&'a V);
impl<'a, V: sval::Value> fmt::Display for ViaFmt<'a, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        sval_fmt::stream_to_fmt(f, self.0)
    }
}

pub const ENTRIES: usize = if cfg!(feature = "full") { 12 } else { 11 };

#[cfg(feature = "full")]
fn boxed(s: &Box<Script>) -> &Box<Script> {
    s
}
#[cfg(not(feature = "full"))]
fn boxed(s: &Box<Script>) -> &Script {
    s
}

/// (result, floats, whether a failure is marked in the text instead of reported)
pub fn write(k: usize, s: &Box<Script>, w: &mut Fmt) -> (fmt::Result, Floats, bool) {
    use Floats::*;
    let r: &Script = s;
    match k {
        0 => (sval_fmt::stream_to_write(&mut *w, r), Write, false),
        1 => (sval_fmt::stream_to_write(w as &mut dyn fmt::Write, r), Write, false),
        2 => (sval_fmt::stream_to_write(&mut *w, r as &dyn sval_dynamic::Value), Write, false),
        3 => (sval_fmt::stream_to_write(&mut *w, boxed(s)), Write, false),
        4 => (sval_fmt::stream_to_write(&mut *w, sval_ref::to_ref(r)), Write, false),
        5 => (write!(w, "{}", ViaFmt(&r)), Display, false),
        6 => (write!(w, "{:?}", format_args!("{}", ViaFmt(&&r))), Display, false),
        7 => (write!(w, "{}", sval_fmt::ToFmt::new(r)), Display, true),
        8 => (write!(w, "{:?}", sval_fmt::ToFmt::new(r)), Display, true),
        9 => (write!(w, "{}", sval_fmt::ToFmt::new_borrowed(r)), Display, true),
        10 => (write!(w, "{:?}", sval_fmt::ToFmt::new(r as &dyn sval_dynamic::Value)), Display, true),
        #[cfg(not(feature = "full"))]
        _ => (write!(w, "{}", sval_fmt::ToFmt::new(r)), Display, true),
        #[cfg(feature = "full")]
        _ => (w.write_str(&sval_fmt::stream_to_string(r)), Write, true),
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = Box::new(gen::script(t, cfg));
    let evs = s.events();
    let tree = proto::parse_void(&evs).map_err(|e| fail("harness", e).text("events", &show(&evs)))?;
    let fault = t.draw(3);
    let producer = if fault == 2 {
        st.hit("fault.producer_error");
        Some(pos(t, s.steps()))
    } else {
        None
    };
    let kind = t.draw(4);
    if kind >= 2 {
        let want = fmtref::expect(&tree, Floats::Display);
        let structural = kind == 3;
        let by = t.draw(2);
        let go = |fail_call: Option<usize>| {
            let mut w = Structural { toks: toks(fail_call), stack: vec![], bad: false };
            let mut p = toks(fail_call);
            let (res, fired) = ctx::producing(producer, || match (structural, by) {
                (false, 0) => sval_fmt::stream_to_token_write(&mut p, &*s),
                (false, _) => sval_fmt::stream_to_token_write(&mut &mut p, boxed(&s)),
                (true, 0) => sval_fmt::stream_to_token_write(&mut w, &*s),
                (true, _) => sval_fmt::stream_to_token_write(&mut &mut w, boxed(&s)),
            });
            let bad = structural && (w.bad || !w.stack.is_empty());
            (if structural { w.toks } else { p }, bad, res, fired)
        };
        let fail_call = if fault == 1 {
            st.hit("fault.token_write_error");
            let n = go(None).0.calls;
            if n > 0 { Some(pos(t, n as u64) as usize) } else { None }
        } else {
            None
        };
        st.state(&(shape(&evs), kind, by, fail_call, producer));
        let (w, bad, res, fired) = go(fail_call);
        let cx = |v: Violation| v.with("script", &s).text("events", &show(&evs)).with("token writer fails at", fail_call).with("producer fault", producer).with("tokens", &w.toks).with("expected", &want).with("result", &res);
        if w.after > 0 {
            return Err(cx(fail("write-after-failure", format!("{} token(s) after the writer failed", w.after))));
        }
        if w.raw > 0 {
            return Err(cx(fail("untagged", "text was written without a token class")));
        }
        if res.is_ok() == (w.failed || fired) {
            return Err(cx(fail("result", format!("writer failed: {}, value failed: {fired}", w.failed))));
        }
        if res.is_ok() {
            if w.toks != want {
                return Err(cx(fail("tokens", "the tokens are not the value's")));
            }
            if bad {
                return Err(cx(fail("first", "is_first or is_empty is wrong")));
            }
        } else if !fmtref::text(&want).starts_with(&fmtref::text(&w.toks)) {
            return Err(cx(fail("not-a-prefix", "the tokens are not a prefix of the value's")));
        }
        st.hit("probe.token_writes");
        return Ok(());
    }
    let k = t.draw(ENTRIES);
    let go = |fail_call: Option<usize>, producer: Option<u64>| {
        let mut w = Fmt { got: String::new(), calls: 0, fail_call, failed: false, after: 0, at_fail: 0 };
        let ((res, floats, marks), fired) = ctx::producing(producer, || write(k, &s, &mut w));
        (w, res, floats, marks, fired)
    };
    let fail_call = if fault == 1 {
        st.hit("fault.fmt_write_error");
        let n = go(None, None).0.calls;
        if n > 0 { Some(pos(t, n as u64) as usize) } else { None }
    } else {
        None
    };
    st.state(&(shape(&evs), k, fail_call, producer));
    let (w, res, floats, marks, fired) = go(fail_call, producer);
    let want = fmtref::text(&fmtref::expect(&tree, floats));
    st.sample(|| format!("entry={k} fail={fail_call:?} producer={producer:?}: {want:?}"));
    let cx = |v: Violation| v.with("entry point", k).with("script", &s).text("events", &show(&evs)).with("fmt::Write fails at call", fail_call).with("producer fault", producer).with("accepted", &w.got).with("expected", &want).with("result", &res);
    let failed = w.failed || fired;
    if !failed {
        if res.is_err() {
            return Err(cx(fail("refused", "formatting failed although neither side failed")));
        }
        if w.got != want {
            return Err(cx(fail("text", "the text is not the value's")));
        }
        st.hit("probe.texts");
        return Ok(());
    }
    let mut got = w.got.as_str();
    if w.after > 0 {
        return Err(cx(fail("write-after-failure", format!("{} write(s) after the writer failed", w.after))));
    }
    if marks && !w.failed {
        // the value's failure shows as `<...>` at the end instead of as an error
        if res.is_err() {
            return Err(cx(fail("result", "the failure of the value should be marked in the text")));
        }
        let mut p = 0;
        for (a, b) in want.char_indices().zip(got.char_indices()) {
            if a != b {
                break;
            }
            p = b.0 + b.1.len_utf8();
        }
        // the marker may begin with what the value would have continued with
        let p = if got[p..].starts_with('<') { p } else { got[..p].rfind('<').unwrap_or(p) };
        let tail = &got[p..];
        if !tail.starts_with('<') || !tail.ends_with('>') {
            return Err(cx(fail("unmarked", "the failure shows neither in the result nor in the text")));
        }
        got = &got[..got.len() - tail.len()];
    } else if res.is_ok() {
        return Err(cx(fail("result", format!("writer failed: {}, value failed: {fired}", w.failed))));
    }
    if !want.starts_with(got) {
        return Err(cx(fail("not-a-prefix", "what was written is not a prefix of the value's text")));
    }
    Ok(())
}
