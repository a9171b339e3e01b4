//! C06: JSON writers lose nothing under I/O faults.

use super::c05;
use super::common::*;
use crate::ctx;
use crate::gen;
use crate::run::*;
use crate::script::*;
use crate::tape::Tape;
use std::cell::RefCell;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::rc::Rc;

/// What the writer does at its next calls.
#[derive(Clone, Debug, Hash)]
pub enum W {
    Full,
    Short(usize),
    Interrupted,
    Zero,
    Err(usize),
}

const KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
];

#[derive(Default)]
pub struct Disk {
    pub got: Vec<u8>,
    /// Outcomes of successive calls, repeated from `cycle`.
    plan: Vec<W>,
    /// The byte at which the terminal fault happens, and the fault.
    stop_at: Option<(usize, W)>,
    calls: usize,
    pub failed: Option<W>,
    pub after: usize,
    log: Vec<W>,
}

#[derive(Clone)]
pub struct Io(pub Rc<RefCell<Disk>>);

impl io::Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ctx::tick();
        let d = &mut *self.0.borrow_mut();
        if d.failed.is_some() {
            // a real writer could well accept bytes again: that is what makes a hole
            d.after += 1;
            d.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let c = d.calls;
        d.calls += 1;
        let mut room = b.len();
        if let Some((at, w)) = &d.stop_at {
            if d.got.len() >= *at {
                let w = w.clone();
                d.failed = Some(w.clone());
                d.log.push(w.clone());
                return match w {
                    W::Err(k) => Err(io::Error::new(KINDS[k], "simulated")),
                    _ => Ok(0),
                };
            }
            room = room.min(*at - d.got.len());
        }
        let w = if d.plan.is_empty() { W::Full } else { d.plan[c % d.plan.len()].clone() };
        if d.log.len() < 64 {
            d.log.push(w.clone());
        }
        match w {
            W::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "simulated signal")),
            W::Short(n) => {
                let n = n.clamp(1, room);
                d.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            _ => {
                d.got.extend_from_slice(&b[..room]);
                Ok(room)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A formatter target that fails at a byte; everything before it is accepted.
pub struct Fmt {
    pub got: String,
    pub calls: usize,
    pub fail_call: Option<usize>,
    pub failed: bool,
    pub after: usize,
    /// How much was accepted before the failure.
    pub at_fail: usize,
}

impl fmt::Write for Fmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        ctx::tick();
        if self.failed {
            self.after += 1;
            self.got.push_str(s);
            return Ok(());
        }
        let c = self.calls;
        self.calls += 1;
        if Some(c) == self.fail_call {
            self.failed = true;
            self.at_fail = self.got.len();
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

#[cfg(feature = "full")]
pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let s = Box::new(gen::script(t, c05::cfg));
    let r: &Script = &s;
    let evs = s.events();
    let mut clean = Vec::new();
    let ok = sval_json::stream_to_io_write(&mut clean, r).is_ok();
    // a refused key leaves a partial document behind: everything below is about prefixes of it
    let producer = if t.draw(5) == 4 {
        st.hit("fault.producer_error");
        Some(pos(t, s.steps()))
    } else {
        None
    };
    let fmt_mode = t.draw(4) == 3;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    if fmt_mode {
        // number of writer calls of the whole document
        let mut probe = Fmt { got: String::new(), calls: 0, fail_call: None, failed: false, after: 0, at_fail: 0 };
        let _ = sval_json::stream_to_fmt_write(&mut probe, r);
        if probe.got.as_bytes() != clean {
            return Err(fail("writers-differ", "the fmt::Write and io::Write documents differ").with("script", &s));
        }
        let fail_call = if t.draw(4) != 0 && probe.calls > 0 {
            st.hit("fault.fmt_write_error");
            Some(pos(t, probe.calls as u64) as usize)
        } else {
            None
        };
        let mut w = Fmt { got: String::new(), calls: 0, fail_call, failed: false, after: 0, at_fail: 0 };
        let dynamic = t.draw(2) == 1;
        let (res, fired) = ctx::producing(producer, || {
            if dynamic {
                sval_json::stream_to_fmt_write(&mut w as &mut dyn fmt::Write, r)
            } else {
                sval_json::stream_to_fmt_write(&mut w, r)
            }
        });
        st.state(&(shape(&evs), "fmt", fail_call, producer));
        let cx = |v: Violation| v.with("script", &s).with("fmt::Write fails at call", fail_call).with("producer fault", producer).with("accepted", &w.got).with("document", String::from_utf8_lossy(&clean));
        if w.after > 0 {
            return Err(cx(fail("write-after-failure", format!("{} write(s) after the writer failed", w.after))));
        }
        if !clean.starts_with(w.got.as_bytes()) {
            return Err(cx(fail("not-a-prefix", "what was written is not a prefix of the document")));
        }
        let should_fail = w.failed || fired || !ok;
        if res.is_ok() != !should_fail {
            return Err(cx(fail("result", format!("writer failed: {}, value failed: {fired}, representable: {ok}, result: {res:?}", w.failed))));
        }
        if res.is_ok() && w.got.as_bytes() != clean {
            return Err(cx(fail("truncated", "Ok, but the document is incomplete")));
        }
        return Ok(());
    }
    let plan: Vec<W> = (0..t.draw(6))
        .map(|_| match t.draw(6) {
            0 => W::Full,
            1 | 2 => {
                st.hit("fault.short_write");
                W::Short(1 + t.draw(4))
            }
            3 => {
                st.hit("fault.interrupted");
                W::Interrupted
            }
            4 => {
                st.hit("fault.short_write");
                W::Short(1)
            }
            _ => {
                st.hit("fault.short_write");
                W::Short(1 + t.draw(40))
            }
        })
        .collect();
    // at least one call in the cycle makes progress
    let plan = if plan.iter().all(|w| matches!(w, W::Interrupted)) && !plan.is_empty() {
        let mut p = plan;
        p.push(W::Full);
        p
    } else {
        plan
    };
    let stop_at = match t.draw(3) {
        0 => None,
        k => {
            let at = pos(t, clean.len() as u64 + 1) as usize;
            let w = if k == 1 {
                st.hit("fault.disk_full");
                W::Zero
            } else {
                st.hit("fault.write_error");
                W::Err(t.draw(KINDS.len()))
            };
            Some((at, w))
        }
    };
    let disk = Rc::new(RefCell::new(Disk { plan, stop_at: stop_at.clone(), ..Default::default() }));
    let mode = t.draw(4);
    let mut io = Io(disk.clone());
    let (res, fired) = ctx::producing(producer, || match mode {
        0 => sval_json::stream_to_io_write(Io(disk.clone()), r),
        1 => sval_json::stream_to_io_write(&mut io, r),
        2 => sval_json::stream_to_io_write(&mut io as &mut dyn io::Write, r),
        _ => sval_json::stream_to_io_write(Box::new(Io(disk.clone())) as Box<dyn io::Write>, r),
    });
    let d = disk.borrow();
    d.log.hash(&mut h);
    st.state(&(shape(&evs), h.finish(), producer));
    st.sample(|| format!("writer={:?} producer={producer:?} document={:?}", d.log, String::from_utf8_lossy(&clean)));
    let cx = |v: Violation| {
        v.with("script", &s)
            .with("writer outcomes", &d.log)
            .with("terminal fault", &stop_at)
            .with("producer fault", producer)
            .with("accepted", String::from_utf8_lossy(&d.got))
            .with("document", String::from_utf8_lossy(&clean))
            .with("result", &res)
    };
    if d.after > 0 {
        return Err(cx(fail("write-after-failure", format!("{} write(s) after the writer failed", d.after))));
    }
    if !clean.starts_with(&d.got) {
        return Err(cx(fail("not-a-prefix", "what was written is not a prefix of the document")));
    }
    let should_fail = d.failed.is_some() || fired || !ok;
    if res.is_ok() == should_fail {
        return Err(cx(fail("result", format!("writer failed: {:?}, value failed: {fired}, representable: {ok}", d.failed))));
    }
    match &res {
        Ok(()) => {
            if d.got != clean {
                return Err(cx(fail("truncated", "Ok, but the document is incomplete")));
            }
        }
        Err(e) => {
            let src = std::error::Error::source(e).and_then(|e| e.downcast_ref::<io::Error>());
            match &d.failed {
                Some(W::Err(k)) => match src {
                    Some(e) if e.kind() == KINDS[*k] && e.to_string() == "simulated" => {}
                    e => return Err(cx(fail("io-error-lost", format!("expected the writer's {:?}, got {e:?}", KINDS[*k])))),
                },
                Some(_) => {}
                None => {
                    if src.is_some() {
                        return Err(cx(fail("io-error-conjured", "an I/O error was reported although the writer never failed")));
                    }
                }
            }
        }
    }
    Ok(())
}
