//! The simulated memory: while a run is being watched, memory is never reused, growing always moves, and whatever is
//! freed is overwritten at once; so a fragment that claims to live longer than it does is seen to change.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

use crate::ctx::POISON;

pub struct Mem;

#[derive(Clone, Copy)]
struct Block {
    ptr: *mut u8,
    layout: Layout,
    /// Allocated while being watched.
    new: bool,
    freed: bool,
}

const CAP: usize = 1 << 16;

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<*mut Block> = const { Cell::new(std::ptr::null_mut()) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static ROOT: Cell<usize> = const { Cell::new(0) };
    static DEEPEST: Cell<usize> = const { Cell::new(0) };
    static DOUBLE: Cell<bool> = const { Cell::new(false) };
}

fn blocks() -> &'static mut [Block] {
    let p = BLOCKS.get();
    if p.is_null() {
        return &mut [];
    }
    // SAFETY: allocated for this thread with room for CAP blocks
    unsafe { std::slice::from_raw_parts_mut(p, LEN.get()) }
}

fn push(b: Block) {
    if BLOCKS.get().is_null() {
        // SAFETY: the size isn't zero
        BLOCKS.set(unsafe { System.alloc(Layout::array::<Block>(CAP).unwrap()) } as *mut Block);
    }
    let n = LEN.get();
    if n < CAP {
        // SAFETY: n is within the table
        unsafe { BLOCKS.get().add(n).write(b) };
        LEN.set(n + 1);
    }
}

// SAFETY: defers to the system allocator; freed blocks are only kept for longer
unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        let p = System.alloc(l);
        if WATCH.get() {
            push(Block { ptr: p, layout: l, new: true, freed: false });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !WATCH.get() {
            return System.dealloc(p, l);
        }
        std::ptr::write_bytes(p, POISON, l.size());
        for b in blocks().iter_mut().rev() {
            if b.ptr == p {
                if b.freed {
                    DOUBLE.set(true);
                }
                b.freed = true;
                return;
            }
        }
        push(Block { ptr: p, layout: l, new: false, freed: true });
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !WATCH.get() {
            crate::sched::alloc_point();
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

/// Whether an address is in the program itself.
pub fn in_image(p: usize) -> bool {
    // SAFETY: only the addresses are used
    unsafe { p >= &__executable_start as *const u8 as usize && p < &_end as *const u8 as usize }
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

/// Note how deep the stack is.
pub fn deep() {
    if WATCH.get() {
        DEEPEST.set(DEEPEST.get().min(here()));
    }
}

/// Memory being watched, from now until this is dropped.
pub struct Watch(());

impl Watch {
    #[inline(never)]
    pub fn begin() -> Watch {
        assert!(!WATCH.get());
        LEN.set(0);
        DOUBLE.set(false);
        let h = here();
        ROOT.set(h);
        DEEPEST.set(h);
        WATCH.set(true);
        Watch(())
    }
    /// Judge a fragment delivered as living as long as the value: what it was, and where.
    pub fn check(&self, was: &[u8], at: usize) -> Option<String> {
        if was.is_empty() || in_image(at) {
            return None;
        }
        let show = || String::from_utf8_lossy(was).into_owned();
        if at >= DEEPEST.get() && at < ROOT.get() {
            return Some(format!("{:?} points into a stack frame that has returned", show()));
        }
        for b in blocks() {
            let s = b.ptr as usize;
            if at >= s && at < s + b.layout.size() && (b.new || b.freed) {
                return Some(format!("{:?} points into {} memory", show(), if b.new { "short-lived" } else { "freed" }));
            }
        }
        // SAFETY: not in a returned frame nor in freed memory; anything else stays mapped while being watched
        let now = unsafe { std::slice::from_raw_parts(at as *const u8, was.len()) };
        if now != was {
            return Some(format!("{:?} has changed to {:?}", show(), String::from_utf8_lossy(now)));
        }
        None
    }
    pub fn double_free(&self) -> bool {
        DOUBLE.get()
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        WATCH.set(false);
        for b in blocks() {
            if b.freed {
                // SAFETY: the block was to be freed; this happens once because the table is then emptied
                unsafe { System.dealloc(b.ptr, b.layout) };
            }
        }
        LEN.set(0);
    }
}
