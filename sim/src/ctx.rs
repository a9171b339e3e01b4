//! Per-thread simulation context: producer steps and faults, scratch memory, scheduler yield points.

use std::cell::{Cell, RefCell};

pub const POISON: u8 = b'~';

thread_local! {
    static STEP: Cell<u64> = Cell::new(0);
    static FAIL_AT: Cell<u64> = Cell::new(u64::MAX);
    static FIRED: Cell<bool> = Cell::new(false);
    static AFTER: Cell<u64> = Cell::new(0);
    static TICKS: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(8_000_000);
    static PANICS: Cell<bool> = const { Cell::new(false) };
    static SCRAMBLE: Cell<bool> = const { Cell::new(false) };
    static GRAVE: RefCell<Vec<Box<dyn std::any::Any>>> = RefCell::new(Vec::new());
    static HOOKED: Cell<bool> = const { Cell::new(false) };
    static YIELD: RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

pub fn reset_run() {
    STEP.with(|s| s.set(0));
    FAIL_AT.with(|s| s.set(u64::MAX));
    FIRED.with(|s| s.set(false));
    AFTER.with(|s| s.set(0));
    TICKS.with(|s| s.set(0));
    PANICS.set(false);
    // (a fresh one, so that how often it grows depends on this run alone)
    GRAVE.with(|g| *g.borrow_mut() = Vec::new());
}

/// Run `f` with its own producer step counter, failing at producer step `fail_at`.
/// Returns the result and whether the fault fired.
pub fn producing<R>(fail_at: Option<u64>, f: impl FnOnce() -> R) -> (R, bool) {
    let saved = (STEP.get(), FAIL_AT.get(), FIRED.get());
    struct Restore((u64, u64, bool));
    impl Drop for Restore {
        fn drop(&mut self) {
            STEP.set(self.0 .0);
            FAIL_AT.set(self.0 .1);
            FIRED.set(self.0 .2);
        }
    }
    let _r = Restore(saved);
    STEP.set(0);
    FAIL_AT.set(fail_at.unwrap_or(u64::MAX));
    FIRED.set(false);
    let r = f();
    (r, FIRED.get())
}

/// A step of the simulated producer.
pub fn pstep() -> sval::Result {
    tick();
    let s = STEP.get();
    STEP.set(s + 1);
    if s == FAIL_AT.get() {
        FIRED.set(true);
        if PANICS.get() {
            panic!("the value panics");
        }
        return sval::error();
    }
    Ok(())
}

/// Whether the next producer step is the failing one (for producers that don't return `sval::Error`).
pub fn pstep_fails() -> bool {
    pstep().is_err()
}

pub fn steps() -> u64 {
    STEP.get()
}

/// Global progress: every producer step, consumer call and writer call is a tick of simulated time.
pub fn tick() {
    crate::mem::deep();
    let t = TICKS.get() + 1;
    TICKS.set(t);
    if t > LIMIT.get() {
        panic!("no progress: the run exceeded its bound of simulated steps");
    }
    if HOOKED.get() {
        // the scheduler of C16: it may let another thread go on, or start another stream from inside this one
        let y = YIELD.with(|y| y.borrow().clone());
        if let Some(y) = y {
            y();
        }
    }
}

pub fn ticks() -> u64 {
    TICKS.get()
}

pub fn set_yield(f: Option<std::rc::Rc<dyn Fn()>>) {
    HOOKED.set(f.is_some());
    YIELD.with(|y| *y.borrow_mut() = f);
}

pub fn bury(x: impl std::any::Any) {
    GRAVE.with(|g| g.borrow_mut().push(Box::new(x)));
}

/// Lend short-lived text: the memory is overwritten as soon as the call returns.
pub fn lend_str<R>(s: &str, f: impl FnOnce(&str) -> R) -> R {
    let mut b = s.as_bytes().to_vec().into_boxed_slice();
    // SAFETY: the bytes were copied from a str
    let r = f(unsafe { std::str::from_utf8_unchecked(&b) });
    b.fill(POISON);
    bury(b);
    r
}

pub fn lend_bytes<R>(s: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    let mut b = s.to_vec().into_boxed_slice();
    let r = f(&b);
    b.fill(POISON);
    bury(b);
    r
}

/// Whether the failing producer step panics instead of returning an error.
pub fn panics(p: bool) -> bool {
    PANICS.replace(p)
}

/// Run `f` with memory being given other contents instead of being overwritten whenever it is poisoned.
pub fn scrambling(f: impl FnOnce()) {
    SCRAMBLE.set(true);
    f();
    SCRAMBLE.set(false);
}

fn spoil(b: &mut [u8]) {
    const SET: &[u8] = b"bcdgkmpqrstuvwxyz";
    if !SCRAMBLE.get() {
        return b.fill(POISON);
    }
    // (numbers stay numbers)
    for c in b {
        *c = match *c {
            b'1'..=b'9' => (*c - b'0') % 9 + b'1',
            x => match SET.iter().position(|y| *y == x) {
                Some(i) => SET[(i + 1) % SET.len()],
                None => x,
            },
        }
    }
}

pub fn poison_str(s: &mut String) {
    // SAFETY: only whole ASCII characters are replaced, or all bytes by ASCII
    spoil(unsafe { s.as_bytes_mut() })
}

pub fn poison_bytes(s: &mut [u8]) {
    spoil(s)
}
