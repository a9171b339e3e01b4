//! Shared scenario pieces: faults, prefix checks, state hashing.

use crate::ev::*;
use crate::gen;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Fault {
    None,
    /// consumer fails at its k-th call
    Consumer(u64),
    /// producer fails at its k-th step
    Producer(u64),
}

impl Fault {
    pub fn draw(t: &mut Tape, calls: u64, steps: u64, s: &mut Stats) -> Fault {
        match t.draw(3) {
            0 => {
                s.hit("fault.none");
                Fault::None
            }
            1 => {
                s.hit("fault.consumer_error");
                Fault::Consumer(pos(t, calls))
            }
            _ => {
                s.hit("fault.producer_error");
                Fault::Producer(pos(t, steps))
            }
        }
    }
    pub fn consumer(self) -> Option<u64> {
        match self {
            Fault::Consumer(k) => Some(k),
            _ => None,
        }
    }
    pub fn producer(self) -> Option<u64> {
        match self {
            Fault::Producer(k) => Some(k),
            _ => None,
        }
    }
}

/// A fault position: uniform, with extra weight on the first and last ones.
pub fn pos(t: &mut Tape, n: u64) -> u64 {
    if n == 0 {
        return 0;
    }
    match t.draw(8) {
        0 => 0,
        7 => n - 1,
        _ => t.draw(n as usize) as u64,
    }
}

/// The sequence of call kinds and how fragments were lent.
pub fn shape(evs: &[Ev]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for e in evs {
        std::mem::discriminant(e).hash(&mut h);
        if let Ev::Text(_, P::C) | Ev::Bin(_, P::C) = e {
            1u8.hash(&mut h);
        }
    }
    h.finish()
}

/// `got` must be a prefix of `want`, fragments of the same class being merged on both sides.
pub fn prefix_merged(want: &[Ev], got: &[Ev]) -> Option<String> {
    let (w, g) = (merged(want, true), merged(got, true));
    for (i, e) in g.iter().enumerate() {
        let last = i + 1 == g.len();
        match (w.get(i), e) {
            (Some(a), b) if a == b => {}
            (Some(Ev::Text(a, pa)), Ev::Text(b, pb)) if last && pa == pb && a.starts_with(b.as_str()) => {}
            (Some(Ev::Bin(a, pa)), Ev::Bin(b, pb)) if last && pa == pb && a.starts_with(b) => {}
            (a, b) => return Some(format!("event #{i}: expected {a:?} got {b:?}")),
        }
    }
    None
}

/// Compare what a consumer saw with what it must see.
pub fn same(s: &Script, want: &[Ev], got: &[Ev]) -> Option<String> {
    if gen::has_real(s) {
        diff(&merged(want, true), &merged(got, true))
    } else {
        diff(&no_addr(want), &no_addr(got))
    }
}

pub fn unborrow(evs: Vec<Ev>) -> Vec<Ev> {
    evs.into_iter()
        .map(|e| match e {
            Ev::Text(t, _) => Ev::Text(t, P::C),
            Ev::Bin(t, _) => Ev::Bin(t, P::C),
            e => e,
        })
        .collect()
}

/// Generic judgement against expected events (`full`) and expected events up to the producer's failure (`cut`).
pub fn judge_events(full: &[Ev], cut: &dyn Fn() -> Vec<Ev>, fault: Fault, fired: bool, rec: &Rec, res: &sval::Result) -> Res {
    match fault {
        Fault::None => {
            if res.is_err() {
                return Err(fail("unexpected-error", "streaming failed although neither side failed"));
            }
            if let Some(d) = diff(&merged(full, true), &merged(&rec.evs, true)) {
                return Err(fail("events-differ", d));
            }
        }
        Fault::Consumer(_) => {
            if rec.after > 0 {
                return Err(fail("called-after-failure", format!("{} call(s) after the consumer failed, first: {:?}", rec.after, rec.after_what)));
            }
            if let Some(d) = prefix_merged(full, &rec.evs) {
                return Err(fail("not-a-prefix", d));
            }
            if rec.failed && res.is_ok() {
                return Err(fail("error-swallowed", "the consumer failed but the caller got Ok"));
            }
            if !rec.failed {
                if let Some(d) = diff(&merged(full, true), &merged(&rec.evs, true)) {
                    return Err(fail("events-differ", d));
                }
            }
        }
        Fault::Producer(_) => {
            if !fired {
                return Err(fail("value-not-streamed", "the value was not streamed up to its failing step"));
            }
            if res.is_ok() {
                return Err(fail("error-swallowed", "the value failed but the caller got Ok"));
            }
            if let Some(d) = diff(&merged(&cut(), true), &merged(&rec.evs, true)) {
                return Err(fail("not-the-prefix", d));
            }
        }
    }
    Ok(())
}

/// Check result and events of one streaming of `s` into `rec` under `fault`, `computed` if everything was computed.
pub fn judge(s: &Script, computed: bool, fault: Fault, fired: bool, rec: &Rec, res: &sval::Result) -> Res {
    let unborrow = |evs: Vec<Ev>| -> Vec<Ev> {
        if !computed {
            return evs;
        }
        evs.into_iter()
            .map(|e| match e {
                Ev::Text(t, _) => Ev::Text(t, P::C),
                Ev::Bin(t, _) => Ev::Bin(t, P::C),
                e => e,
            })
            .collect()
    };
    let full = unborrow(s.events());
    let ctx = |v: Violation| v.with("script", s).with("fault", fault).text("expected", &show(&full)).text("got", &show(&rec.evs));
    match fault {
        Fault::None => {
            if res.is_err() {
                return Err(ctx(fail("unexpected-error", "streaming failed although neither side failed")));
            }
            if let Some(d) = same(s, &full, &rec.evs) {
                return Err(ctx(fail("events-differ", d)));
            }
        }
        Fault::Consumer(_) => {
            if rec.after > 0 {
                return Err(ctx(fail("called-after-failure", format!("{} call(s) after the consumer failed, first: {:?}", rec.after, rec.after_what))));
            }
            if let Some(d) = prefix_merged(&full, &rec.evs) {
                return Err(ctx(fail("not-a-prefix", d)));
            }
            if rec.failed && res.is_ok() {
                return Err(ctx(fail("error-swallowed", "the consumer failed but the caller got Ok")));
            }
            if !rec.failed {
                // fewer calls than expected were made
                if let Some(d) = same(s, &full, &rec.evs) {
                    return Err(ctx(fail("events-differ", d)));
                }
            }
        }
        Fault::Producer(k) => {
            let want = unborrow(s.events_until(Some(k)).0);
            if !fired {
                return Err(ctx(fail("value-not-streamed", "the value was not streamed up to its failing step")));
            }
            if res.is_ok() {
                return Err(ctx(fail("error-swallowed", "the value failed but the caller got Ok")));
            }
            if let Some(d) = same(s, &want, &rec.evs) {
                return Err(ctx(fail("not-the-prefix", d)));
            }
        }
    }
    Ok(())
}

/// All conversions of a value.
#[derive(Debug, Clone)]
pub struct Conv {
    pub tag: Option<sval::Tag>,
    pub b: Option<bool>,
    pub f: (Option<u32>, Option<u64>),
    pub i: (Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>),
    pub u: (Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>),
    pub text: Option<(String, usize)>,
    pub bin: Option<(Vec<u8>, usize)>,
}

impl PartialEq for Conv {
    fn eq(&self, o: &Conv) -> bool {
        self.tag == o.tag && self.b == o.b && self.f == o.f && self.i == o.i && self.u == o.u
            && self.text.as_ref().map(|x| &x.0) == o.text.as_ref().map(|x| &x.0)
            && self.bin.as_ref().map(|x| &x.0) == o.bin.as_ref().map(|x| &x.0)
    }
}

pub fn conv<V: sval::Value + ?Sized>(v: &V) -> Conv {
    Conv {
        tag: v.tag(),
        b: v.to_bool(),
        f: (v.to_f32().map(|f| f.to_bits()), v.to_f64().map(|f| f.to_bits())),
        i: (v.to_i8(), v.to_i16(), v.to_i32(), v.to_i64(), v.to_i128()),
        u: (v.to_u8(), v.to_u16(), v.to_u32(), v.to_u64(), v.to_u128()),
        text: v.to_text().map(|s| (s.to_owned(), s.as_ptr() as usize)),
        bin: v.to_binary().map(|s| (s.to_owned(), s.as_ptr() as usize)),
    }
}
