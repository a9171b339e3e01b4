//! C16: concurrent and re-entrant streams do not disturb one another.
//!
//! Jobs over shared values, buffers and labels are first run alone; then together, on real threads under the
//! scheduler, or re-entrantly from inside one another's callbacks, or one after another over memory whose contents
//! change; some of them fail or panic part way. Each must give what it gave alone.

use super::c08::{self, Case};
use super::c06::Fmt;
use super::common::*;
use crate::ctx;
use crate::ev::*;
use crate::run::*;
use crate::sched;
use crate::script::*;
use crate::tape::Tape;
use std::cell::Cell;
use std::fmt::Write as _;
use sval::Value as _;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};

/// What is shared.
struct World<'w> {
    scripts: &'w [Box<Script>],
    vals: &'w [Option<Value<'w>>],
    bufs: &'w [Option<ValueBuf<'w>>],
    texts: &'w [TextBuf<'w>],
    bins: &'w [BinaryBuf<'w>],
    labels: &'w [sval::Label<'w>],
}

#[derive(Debug, Clone)]
struct Job {
    kind: usize,
    on: usize,
    case: Case,
    fail: Option<u64>,
    panics: bool,
}

const KINDS: usize = 10;

fn frame(rec: &Rec) -> String {
    show(&no_addr(&rec.evs))
}

impl Job {
    fn draw(t: &mut Tape, scenes: &[usize], st: &mut Stats) -> Job {
        let on = t.draw(scenes.len());
        let kind = t.draw(KINDS + 6).saturating_sub(6);
        let mut case = Case::draw(t, scenes[on]);
        let mut fail = None;
        let mut panics = false;
        match t.draw(6) {
            3 => {
                st.hit("fault.consumer_error");
                case.fail = Some(t.draw(12) as u64)
            }
            4 => {
                st.hit("fault.producer_error");
                fail = Some(t.draw(12) as u64)
            }
            5 => {
                st.hit("fault.panic");
                fail = Some(t.draw(12) as u64);
                panics = true;
            }
            _ => st.hit("fault.none"),
        }
        Job { kind, on, case, fail, panics }
    }

    /// Run to the end; everything that can be seen of it.
    fn run(&self, w: &World) -> String {
        let was = ctx::panics(self.panics);
        let r = ctx::producing(self.fail, || guard(|| self.inner(w)));
        ctx::panics(was);
        match r {
            (Ok(s), f) => format!("{s} (the value failed: {f})"),
            (Err(v), f) => format!("{}: {} (the value failed: {f})", v.class, v.detail),
        }
    }

    fn inner(&self, w: &World) -> String {
        let s = &w.scripts[self.on];
        let c = self.case.c;
        let mut rec = Rec::new(self.case.fail);
        match self.kind {
            1 => match &w.vals[self.on] {
                None => String::new(),
                Some(v) => match c {
                    0 => format!("{:?} {}", v.stream(&mut rec), frame(&rec)),
                    1 => format!("{:?} {}", sval_ref::stream_ref(&mut rec, v), frame(&rec)),
                    2 => {
                        let o = v.clone().into_owned();
                        format!("{:?} {}", o.map(|o| o.stream(&mut rec)), frame(&rec))
                    }
                    3 => sval_json::stream_to_string(v).unwrap_or_default(),
                    4 => format!("{}", sval_fmt::ToFmt::new(v)),
                    5 => {
                        let o = v.clone();
                        ctx::tick();
                        format!("{:?} {:?}", *v, o)
                    }
                    6 => {
                        let o = ValueBuf::collect(v);
                        format!("{:?}", o)
                    }
                    7 => {
                        let o = Value::collect_owned(v);
                        format!("{:?}", o)
                    }
                    8 => format!("{:?} {}", (v as &(dyn sval_dynamic::Value + Send + Sync)).stream(&mut rec as &mut dyn sval_dynamic::Stream), frame(&rec)),
                    _ => format!("{v:?} {:?}", conv(v).tag),
                },
            },
            2 => match &w.bufs[self.on] {
                None => String::new(),
                Some(v) => match c {
                    0 => format!("{:?} {}", v.stream(&mut rec), frame(&rec)),
                    1 => format!("{:?} {}", sval_ref::stream_ref(&mut rec, v), frame(&rec)),
                    2 => {
                        let o = v.to_value();
                        ctx::tick();
                        format!("{:?} {}", o.stream(&mut rec), frame(&rec))
                    }
                    3 => {
                        let mut o = ValueBuf::new();
                        let r = v.stream(&mut o);
                        ctx::tick();
                        let r2 = o.stream(&mut rec);
                        ctx::tick();
                        o.clear();
                        format!("{r:?} {r2:?} {} {:?}", frame(&rec), o)
                    }
                    4 => {
                        let o = ValueBuf::collect(v).and_then(|o| o.into_owned());
                        format!("{o:?}")
                    }
                    5 => format!("{} {:?}", v.is_complete(), v.to_value().into_owned()),
                    _ => format!("{v:?}"),
                },
            },
            3 => {
                // text built bit by bit
                let mut o = w.texts[self.on].clone();
                let mut parts = String::new();
                for p in ["x", "", "yz", "\u{e9}"].iter().take(c % 5) {
                    ctx::tick();
                    let r = if self.case.a % 2 == 0 { o.push_fragment(p) } else { ctx::lend_str(p, |p| o.push_fragment_computed(p)) };
                    let _ = write!(parts, "{}", r.is_ok());
                }
                ctx::tick();
                let b = o.as_borrowed_str().map(|s| s.to_owned());
                let r = o.stream(&mut rec);
                ctx::tick();
                o.clear();
                format!("{parts} {b:?} {r:?} {} {:?} {:?} {}", frame(&rec), o, w.texts[self.on], w.texts[self.on].as_str())
            }
            4 => {
                let mut o = w.bins[self.on].clone();
                let mut parts = String::new();
                for p in [&b"x"[..], b"", b"\xff", b"12"].iter().take(c % 5) {
                    ctx::tick();
                    let r = if self.case.a % 2 == 0 { o.push_fragment(p) } else { ctx::lend_bytes(p, |p| o.push_fragment_computed(p)) };
                    let _ = write!(parts, "{}", r.is_ok());
                }
                ctx::tick();
                let b = o.as_borrowed_slice().map(|s| s.to_owned());
                let r = o.stream(&mut rec);
                format!("{parts} {b:?} {r:?} {} {:?}", frame(&rec), w.bins[self.on])
            }
            5 => {
                let mut out = String::new();
                for l in w.labels {
                    ctx::tick();
                    let a = l.clone();
                    let b = l.to_owned();
                    ctx::tick();
                    let r = sval::Stream::tagged_begin(&mut rec, None, Some(l), None);
                    let _ = write!(out, "{:?} {:?} {} {} {r:?} {:?};", a, b, a == b, b.as_str(), l.as_static_str());
                }
                format!("{out} {}", frame(&rec))
            }
            6 => {
                let mut b = sval_test::TokenBuf::new();
                let r = s.stream(&mut b);
                format!("{r:?} {:?}", b)
            }
            7 => {
                // one buffer for two streams, each going on where the other one is
                let mut b = ValueBuf::new();
                let r1 = s.stream(&mut b);
                ctx::tick();
                b.clear();
                let r2 = s.stream(&mut b);
                let one = b.to_value();
                ctx::tick();
                let two = b.into_value();
                format!("{r1:?} {r2:?} {one:?} {two:?}")
            }
            8 => {
                let mut w = Fmt { got: String::new(), calls: 0, fail_call: self.case.fail.map(|k| k as usize), failed: false, after: 0, at_fail: 0 };
                let r = sval_json::stream_to_fmt_write(&mut w, s);
                format!("{} {}", r.is_ok(), w.got)
            }
            9 => {
                let mut w = Io { got: vec![], left: self.case.fail.unwrap_or(u64::MAX) };
                let r = sval_json::stream_to_io_write(&mut w, s);
                format!("{} {:?}", r.is_ok(), w.got)
            }
            _ => {
                let mut seen = vec![];
                let e = self.case.go(s, &mut seen);
                format!("{e:?} {}", show(&no_addr(&seen)))
            }
        }
    }
}

struct Io {
    got: Vec<u8>,
    left: u64,
}

impl std::io::Write for Io {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        ctx::tick();
        if self.left == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        self.left -= 1;
        let n = b.len().min(3);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn label(t: &mut Tape, text: &'static str) -> sval::Label<'static> {
    let l = match t.draw(3) {
        0 => sval::Label::new(text),
        1 => sval::Label::new_computed(text).to_owned(),
        _ => sval::Label::new(text).clone(),
    };
    match t.draw(2) {
        1 => l.with_tag(&sval::tags::VALUE_IDENT),
        _ => l,
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let mode = t.draw(4);
    let n = t.range(1, 2);
    let scenes: Vec<usize> = (0..n).map(|_| t.draw(c08::SCENES)).collect();
    let mut scripts: Vec<Box<Script>> = scenes.iter().map(|s| Box::new(c08::script(t, *s))).collect();
    let texts: Vec<TextBuf> = (0..n)
        .map(|_| {
            let mut b = TextBuf::new();
            for _ in 0..t.draw(3) {
                let _ = if t.draw(2) == 0 { b.push_fragment("shared") } else { b.push_fragment_computed("ab") };
            }
            b
        })
        .collect();
    let bins: Vec<BinaryBuf> = (0..n)
        .map(|_| {
            let mut b = BinaryBuf::new();
            for _ in 0..t.draw(3) {
                let _ = if t.draw(2) == 0 { b.push_fragment(b"shared") } else { b.push_fragment_computed(b"ab") };
            }
            b
        })
        .collect();
    let labels = [label(t, "one"), label(t, "another")];
    let count = t.range(2, 4);
    let jobs: Vec<Job> = (0..count).map(|_| Job::draw(t, &scenes, st)).collect();
    st.hit(["probe.threads", "probe.reentrant", "probe.changing_memory", "probe.threads"][mode]);
    if mode == 2 {
        return changing(t, st, &mut scripts, &texts, &bins, &labels, &jobs);
    }
    let vals: Vec<Option<Value>> = scripts.iter().map(|s| ctx::producing(None, || Value::collect(s).ok()).0).collect();
    let bufs: Vec<Option<ValueBuf>> = scripts.iter().map(|s| ctx::producing(None, || ValueBuf::collect(s).ok()).0).collect();
    let w = World { scripts: &scripts, vals: &vals, bufs: &bufs, texts: &texts, bins: &bins, labels: &labels };
    let cx = |v: Violation, trace: &[u8]| v.with("shared values", &scripts).with("jobs", &jobs).with("turns", trace);
    let alone: Vec<String> = jobs.iter().map(|j| j.run(&w)).collect();
    let trace;
    if mode == 1 {
        let (res, tr) = reentrant(t, &w, &jobs, &alone);
        trace = tr;
        res.map_err(|v| cx(v, &trace))?;
    } else {
        let mut out: Vec<Option<String>> = vec![None; count];
        let ran = {
            let w = &w;
            let fs: Vec<Box<dyn FnMut() + Send + '_>> = jobs
                .iter()
                .zip(&mut out)
                .map(|(j, o)| Box::new(move || *o = Some(j.run(w))) as Box<dyn FnMut() + Send + '_>)
                .collect();
            sched::run(t, fs)
        };
        st.ticks += ran.ticks;
        st.add("probe.points", ran.points);
        st.add("probe.turns", ran.trace.len() as u64);
        st.add("probe.stolen", ran.stolen);
        trace = ran.trace;
        for (i, (o, a)) in out.iter().zip(&alone).enumerate() {
            if o.as_ref() != Some(a) {
                return Err(cx(fail("disturbed", format!("job {i} gave {o:?} among the others but alone {a:?}")), &trace));
            }
        }
    }
    st.state(&(mode, scripts.iter().map(|s| shape(&s.events())).collect::<Vec<_>>(), jobs.iter().map(|j| (j.kind, j.case.scene, j.case.a, j.case.b, j.case.c, j.case.fail, j.fail, j.panics)).collect::<Vec<_>>(), &trace));
    st.sample(|| format!("mode {mode}, turns {trace:?}, jobs {jobs:?}"));
    // and nothing is left behind
    let back = t.draw(2) == 1;
    for k in 0..count {
        let i = if back { count - 1 - k } else { k };
        let again = jobs[i].run(&w);
        if again != alone[i] {
            return Err(cx(fail("left-behind", format!("job {i} gave {again:?} afterwards but before {:?}", alone[i])), &trace));
        }
    }
    Ok(())
}

thread_local! {
    static NOW: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
}

struct Inside<'a, 'w> {
    t: *mut Tape,
    w: &'a World<'w>,
    jobs: &'a [Job],
    alone: &'a [String],
    depth: Cell<usize>,
    left: Cell<u32>,
    starts: Cell<u32>,
    odds: usize,
    trace: std::cell::RefCell<Vec<u8>>,
    bad: std::cell::RefCell<Option<String>>,
}

impl Inside<'_, '_> {
    fn step(&self) {
        if self.depth.get() >= 4 || self.left.get() == 0 || self.starts.get() == 0 || self.bad.borrow().is_some() {
            return;
        }
        self.left.set(self.left.get() - 1);
        // SAFETY: the tape outlives the run, and no draw is in progress during a callback
        let t = unsafe { &mut *self.t };
        if t.draw(self.odds) == self.odds - 1 {
            self.starts.set(self.starts.get() - 1);
            let i = t.draw(self.jobs.len());
            self.job(i);
        }
    }
    fn job(&self, i: usize) {
        self.trace.borrow_mut().push(i as u8);
        self.depth.set(self.depth.get() + 1);
        let got = self.jobs[i].run(self.w);
        self.depth.set(self.depth.get() - 1);
        self.trace.borrow_mut().push(255);
        if got != self.alone[i] {
            self.bad.borrow_mut().get_or_insert_with(|| format!("job {i} gave {got:?} {} deep but alone {:?}", self.depth.get(), self.alone[i]));
        }
    }
}

fn inside() {
    let p = NOW.get() as *const Inside<'static, 'static>;
    if !p.is_null() {
        // SAFETY: set while the `Inside` is alive, on this thread
        unsafe { (*p).step() }
    }
}

/// One job, from whose callbacks others are started, from whose callbacks others are started.
fn reentrant(t: &mut Tape, w: &World, jobs: &[Job], alone: &[String]) -> (Res, Vec<u8>) {
    let odds = [4, 2, 10, 30][t.draw(4)];
    let i = Inside { t, w, jobs, alone, depth: Cell::new(0), left: Cell::new(200), starts: Cell::new(8), odds, trace: Default::default(), bad: Default::default() };
    NOW.set(&i as *const Inside as *const ());
    ctx::set_yield(Some(std::rc::Rc::new(inside)));
    i.job(0);
    ctx::set_yield(None);
    NOW.set(std::ptr::null());
    let tr = i.trace.into_inner();
    (
        match i.bad.into_inner() {
            Some(b) => Err(fail("disturbed", b)),
            None => Ok(()),
        },
        tr,
    )
}

/// Streams one after another over memory whose contents change in between.
fn changing(t: &mut Tape, st: &mut Stats, scripts: &mut [Box<Script>], texts: &[TextBuf], bins: &[BinaryBuf], labels: &[sval::Label], jobs: &[Job]) -> Res {
    let rounds = t.range(2, 4);
    let mut order = vec![];
    for round in 0..rounds {
        for _ in 0..jobs.len() {
            let i = t.draw(jobs.len());
            order.push(i);
            let j = &jobs[i];
            let go = |scripts: &[Box<Script>]| {
                let vals: Vec<Option<Value>> = scripts.iter().map(|s| ctx::producing(None, || if j.kind == 1 { Value::collect(s).ok() } else { None }).0).collect();
                let bufs: Vec<Option<ValueBuf>> = scripts.iter().map(|s| ctx::producing(None, || if j.kind == 2 { ValueBuf::collect(s).ok() } else { None }).0).collect();
                j.run(&World { scripts, vals: &vals, bufs: &bufs, texts, bins, labels })
            };
            let got = go(scripts);
            let fresh: Vec<Box<Script>> = scripts.to_vec();
            let want = go(&fresh);
            if got != want {
                return Err(fail("stale", format!("after {round} changes job {i} gave {got:?} but over a fresh copy {want:?}")).with("values", &scripts).with("jobs", jobs).with("order", &order));
            }
        }
        ctx::scrambling(|| scripts.iter_mut().for_each(|s| s.poison()));
    }
    st.state(&(scripts.iter().map(|s| shape(&s.events())).collect::<Vec<_>>(), jobs.iter().map(|j| (j.kind, j.case.scene, j.case.a, j.case.b, j.case.c, j.case.fail, j.fail, j.panics)).collect::<Vec<_>>(), order));
    Ok(())
}
