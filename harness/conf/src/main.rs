//! Runs operations of the library, one JSON object per line, and reports what they did. It decides nothing.
mod ops;
mod val;

use serde_json::{json, Value as J};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::RefCell,
    io::{BufRead, Write},
    panic,
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(live, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let live = LIVE.fetch_add(n, Relaxed) + n;
            LIVE.fetch_sub(l.size(), Relaxed);
            PEAK.fetch_max(live, Relaxed);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) } }

pub fn guarded(f: impl FnOnce() -> J + panic::UnwindSafe) -> J {
    match panic::catch_unwind(f) {
        Ok(j) => j,
        Err(_) => json!({"r": "panic", "m": LAST.with(|l| l.borrow().clone())}),
    }
}

fn main() {
    panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    // a large stack, but a fixed one: what overflows it is a crash that is reported as such
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let mut out = std::io::stdout().lock();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let mut de = serde_json::Deserializer::from_str(&line);
                de.disable_recursion_limit();
                let j: J = match serde::Deserialize::deserialize(&mut de) {
                    Ok(j) => j,
                    Err(e) => {
                        eprintln!("bad line: {e}");
                        std::process::exit(3)
                    }
                };
                let r = guarded(panic::AssertUnwindSafe(|| ops::run(&j)));
                writeln!(out, "{r}").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
