//! Counting allocator: per-thread live bytes and peak, with a hard cap that turns
//! runaway allocation inside the code under test into a reported event.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        BIGGEST.with(|b| {
            if n > b.get() {
                b.set(n)
            }
        });
        if v > CAP.with(|k| k.get()) {
            CAP.with(|k| k.set(isize::MAX));
            crate::rt::die_in_sut(86);
        }
    });
}

fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // A moving realloc holds both blocks for a moment: count it that way.
        add(n);
        let r = System.realloc(p, l, n);
        if r.is_null() {
            sub(n);
        } else {
            sub(l.size());
        }
        r
    }
}

pub fn current() -> isize {
    CUR.with(|c| c.get())
}
pub fn begin(cap: isize) -> isize {
    let c = current();
    PEAK.with(|p| p.set(c));
    BIGGEST.with(|b| b.set(0));
    CAP.with(|k| k.set(c.saturating_add(cap)));
    c
}
pub fn end(start: isize) -> usize {
    CAP.with(|k| k.set(isize::MAX));
    (PEAK.with(|p| p.get()) - start).max(0) as usize
}
