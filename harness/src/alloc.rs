//! Counts allocations per case, so that a call that allocates without bound is noticed before it
//! takes the machine's memory. The thread is then put to sleep and the watchdog reports the case.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

pub const MAX_ALLOCATIONS: u64 = 200_000_000;
pub const MAX_LIVE_BYTES: i64 = 1 << 30;

const SLOTS: usize = 64;
static STUCK: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The thread that works for each slot, as named under /proc.
static TASKS: [Mutex<String>; SLOTS] = [const { Mutex::new(String::new()) }; SLOTS];

pub fn bind(slot: usize) {
    if slot < SLOTS {
        if let Ok(t) = std::fs::read_link("/proc/thread-self") {
            *TASKS[slot].lock().unwrap() = t.to_string_lossy().into_owned();
        }
    }
    SLOT.with(|s| s.set(slot));
    reset();
}

pub fn task(slot: usize) -> String {
    TASKS[slot].lock().unwrap().clone()
}

pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}

pub fn reset() {
    COUNT.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
}

pub fn is_stuck(slot: usize) -> bool {
    STUCK[slot].load(SeqCst)
}

fn count(bytes: i64) {
    let _ = SLOT.try_with(|s| {
        if s.get() >= SLOTS {
            return;
        }
        let over = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get() > MAX_ALLOCATIONS
        }) | LIVE.with(|l| {
            l.set(l.get() + bytes);
            l.get() > MAX_LIVE_BYTES
        });
        if over {
            STUCK[s.get()].store(true, SeqCst);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
    });
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
}
