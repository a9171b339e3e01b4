//! The scheduler: real threads, one of which runs at a time. Every producer step, consumer call, writer call and
//! allocation is a point where the seed may decide to let another thread go on.

use crate::ctx;
use crate::run::last_panic;
use crate::tape::Tape;
use std::cell::Cell;
use std::panic::catch_unwind;
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::Duration;

pub const THREADS: usize = 4;
const NOBODY: usize = usize::MAX;

struct State {
    current: usize,
    ready: [bool; THREADS],
    tape: *mut Tape,
    odds: usize,
    left: u32,
    alloc: bool,
    /// who was let on, in order
    trace: Vec<u8>,
    /// A thread that blocks while it may run has its turn taken away.
    stolen: u64,
    job: [Option<*mut (dyn FnMut() + 'static)>; THREADS],
    progress: u64,
    tid: [i32; THREADS],
    ticks: u64,
}
// SAFETY: only touched by the thread whose turn it is
unsafe impl Send for State {}

struct Pool {
    m: Mutex<State>,
    go: [Condvar; THREADS],
    end: Condvar,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static ALLOC: Cell<bool> = const { Cell::new(false) };
}

static POOL: OnceLock<&'static Pool> = OnceLock::new();

extern "C" {
    fn gettid() -> i32;
}

fn pool() -> &'static Pool {
    POOL.get_or_init(|| {
        let p: &'static Pool = Box::leak(Box::new(Pool {
            m: Mutex::new(State {
                current: NOBODY,
                ready: [false; THREADS],
                tape: std::ptr::null_mut(),
                odds: 2,
                left: 0,
                alloc: false,
                trace: vec![],
                stolen: 0,
                job: [None; THREADS],
                progress: 0,
                tid: [0; THREADS],
                ticks: 0,
            }),
            go: [const { Condvar::new() }; THREADS],
            end: Condvar::new(),
        }));
        for i in 0..THREADS {
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || body(p, i)).unwrap();
        }
        p
    })
}

fn body(p: &'static Pool, me: usize) {
    // whatever a thread sets up once is set up now, so that a run's allocations are its own
    ctx::reset_run();
    ctx::set_yield(None);
    ctx::lend_str("warm", |_| ());
    let _ = catch_unwind(|| panic!("warm"));
    let _ = last_panic();
    ctx::reset_run();
    let mut g = p.m.lock().unwrap();
    // SAFETY: no arguments
    g.tid[me] = unsafe { gettid() };
    loop {
        while !(g.current == me && g.job[me].is_some()) {
            g = p.go[me].wait(g).unwrap();
        }
        let job = g.job[me].take().unwrap();
        let alloc = g.alloc;
        drop(g);
        ctx::reset_run();
        ME.set(me);
        ctx::set_yield(Some(std::rc::Rc::new(point)));
        ALLOC.set(alloc);
        // SAFETY: `run` waits for the job to end before it returns
        unsafe { (*job)() };
        ALLOC.set(false);
        ctx::set_yield(None);
        ME.set(NOBODY);
        let ticks = ctx::ticks();
        ctx::reset_run();
        g = p.m.lock().unwrap();
        g.ticks += ticks;
        g.ready[me] = false;
        let stole = g.current != me;
        if !stole {
            next(p, &mut g, true);
        }
        if g.ready.iter().all(|r| !r) {
            g.current = NOBODY;
            p.end.notify_all();
        }
    }
}

/// Let another thread go on, if there is one.
fn next(p: &Pool, g: &mut State, done: bool) {
    let me = g.current;
    let others: Vec<usize> = (0..THREADS).filter(|i| g.ready[*i] && (*i != me || done)).collect();
    if others.is_empty() {
        return;
    }
    // SAFETY: the tape outlives the run
    let k = if others.len() == 1 { 0 } else { unsafe { (*g.tape).draw(others.len()) } };
    g.current = others[k];
    g.trace.push(others[k] as u8);
    p.go[others[k]].notify_one();
}

/// A point where the turn may pass to another thread.
fn point() {
    let me = ME.get();
    if me == NOBODY || BUSY.get() {
        return;
    }
    BUSY.set(true);
    let p = pool();
    let mut g = p.m.lock().unwrap();
    if g.current == me {
        g.progress += 1;
        if g.left > 0 && g.ready.iter().filter(|r| **r).count() > 1 {
            g.left -= 1;
            let odds = g.odds;
            // SAFETY: the tape outlives the run
            if unsafe { (*g.tape).draw(odds) } == odds - 1 {
                next(p, &mut g, false);
            }
        }
    }
    while g.current != me {
        g = p.go[me].wait(g).unwrap();
    }
    drop(g);
    BUSY.set(false);
}

/// An allocation by a scheduled thread.
#[inline]
pub fn alloc_point() {
    if ALLOC.get() && !BUSY.get() {
        point()
    }
}

fn asleep(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => false,
    }
}

pub struct Ran {
    pub trace: Vec<u8>,
    pub stolen: u64,
    pub points: u64,
    pub ticks: u64,
}

/// Run the jobs to their ends, interleaved as the tape says.
pub fn run(t: &mut Tape, jobs: Vec<Box<dyn FnMut() + Send + '_>>) -> Ran {
    assert!(jobs.len() <= THREADS);
    let p = pool();
    let mut jobs = jobs;
    let odds = [3, 2, 6, 20][t.draw(4)];
    let alloc = t.draw(2) == 1;
    let mut g = p.m.lock().unwrap();
    while g.tid.iter().any(|t| *t == 0) {
        drop(g);
        std::thread::yield_now();
        g = p.m.lock().unwrap();
    }
    g.tape = t;
    g.odds = odds;
    g.alloc = alloc;
    g.left = 600;
    g.trace.clear();
    g.stolen = 0;
    g.progress = 0;
    g.ticks = 0;
    for (i, j) in jobs.iter_mut().enumerate() {
        let j: *mut (dyn FnMut() + Send + '_) = &mut **j;
        // SAFETY: the jobs outlive this function, which waits for all of them
        g.job[i] = Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + Send + '_), *mut (dyn FnMut() + 'static)>(j) });
        g.ready[i] = true;
    }
    g.current = NOBODY;
    next(p, &mut g, true);
    let mut seen = (0, 0);
    while g.ready.iter().any(|r| *r) {
        let (h, to) = p.end.wait_timeout(g, Duration::from_millis(20)).unwrap();
        g = h;
        if to.timed_out() {
            // nothing moved, and the thread whose turn it is sleeps: it waits for something another thread holds
            let now = (g.progress, g.trace.len());
            let c = g.current;
            if now == seen && c != NOBODY && asleep(g.tid[c]) {
                g.stolen += 1;
                if g.stolen > 200 {
                    // every thread waits for another one
                    eprintln!("sim: deadlock between simulated threads");
                    std::process::abort();
                }
                next(p, &mut g, false);
            }
            seen = now;
        }
    }
    Ran { trace: std::mem::take(&mut g.trace), stolen: g.stolen, points: g.progress, ticks: g.ticks }
}
