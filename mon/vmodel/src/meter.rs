//! Logical work meters: basic-block steps (SanitizerCoverage callbacks), heap use, both per thread.
//! A limit that is exceeded calls the registered hook, which reports and ends the process: the
//! verdict depends on counted work, never on wall-clock time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

pub struct Tl {
    pub steps: Cell<u64>,
    pub step_limit: Cell<u64>,
    pub map: Cell<*mut u8>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub biggest: Cell<u64>,
    pub allocs: Cell<u64>,
    pub live_limit: Cell<i64>,
    /// What is running, for the report.
    pub note: Cell<&'static str>,
}
thread_local! {
    pub static TL: Tl = const { Tl {
        steps: Cell::new(0), step_limit: Cell::new(u64::MAX), map: Cell::new(std::ptr::null_mut()),
        live: Cell::new(0), peak: Cell::new(0), biggest: Cell::new(0), allocs: Cell::new(0),
        live_limit: Cell::new(i64::MAX), note: Cell::new(""),
    } };
}

static NGUARDS: AtomicU32 = AtomicU32::new(0);
static HOOK: AtomicUsize = AtomicUsize::new(0);

/// `hook(kind, value)` must not return normally.
pub fn set_hook(f: fn(&'static str, u64)) {
    HOOK.store(f as *const () as usize, Ordering::SeqCst);
}
#[cold]
#[inline(never)]
fn fire(kind: &'static str, v: u64) {
    let h = HOOK.load(Ordering::SeqCst);
    if h != 0 {
        let f: fn(&'static str, u64) = unsafe { std::mem::transmute(h) };
        f(kind, v);
    }
}
pub fn guards() -> usize {
    NGUARDS.load(Ordering::SeqCst) as usize
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        *p = NGUARDS.fetch_add(1, Ordering::SeqCst) + 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    TL.with(|t| {
        let s = t.steps.get() + 1;
        t.steps.set(s);
        if s > t.step_limit.get() {
            t.step_limit.set(u64::MAX);
            fire("steps", s);
        }
        let m = t.map.get();
        if !m.is_null() {
            let p = m.add(*g as usize);
            *p = (*p).saturating_add(1);
        }
    })
}

pub struct MonAlloc;
#[inline]
fn account(sz: usize) {
    let _ = TL.try_with(|t| {
        let l = t.live.get() + sz as i64;
        t.live.set(l);
        t.allocs.set(t.allocs.get() + 1);
        if l > t.peak.get() {
            t.peak.set(l);
        }
        if sz as u64 > t.biggest.get() {
            t.biggest.set(sz as u64);
        }
        if l > t.live_limit.get() {
            t.live_limit.set(i64::MAX);
            fire("memory", l as u64);
        }
    });
}
unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = TL.try_with(|t| t.live.set(t.live.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = TL.try_with(|t| t.live.set(t.live.get() - l.size() as i64));
        account(n);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub steps: u64,
    pub allocs: u64,
    /// Peak growth of live heap bytes over the state at the start.
    pub peak: u64,
    pub biggest: u64,
}
pub struct Meter {
    steps0: u64,
    allocs0: u64,
    live0: i64,
    /// Of the meter around this one.
    outer: (u64, i64, i64, u64),
}
impl Meter {
    /// Meters nest: the limits of the outer one stay in force.
    pub fn start(step_limit: u64, live_limit: u64) -> Meter {
        TL.with(|t| {
            let outer = (t.step_limit.get(), t.live_limit.get(), t.peak.get(), t.biggest.get());
            t.step_limit.set(t.steps.get().saturating_add(step_limit).min(outer.0));
            t.peak.set(t.live.get());
            t.biggest.set(0);
            t.live_limit.set(t.live.get().saturating_add(i64::try_from(live_limit).unwrap_or(i64::MAX)).min(outer.1));
            Meter { steps0: t.steps.get(), allocs0: t.allocs.get(), live0: t.live.get(), outer }
        })
    }
    pub fn stop(self) -> Usage {
        TL.with(|t| {
            let u = Usage {
                steps: t.steps.get() - self.steps0,
                allocs: t.allocs.get() - self.allocs0,
                peak: (t.peak.get() - self.live0).max(0) as u64,
                biggest: t.biggest.get(),
            };
            t.step_limit.set(self.outer.0);
            t.live_limit.set(self.outer.1);
            t.peak.set(t.peak.get().max(self.outer.2));
            t.biggest.set(t.biggest.get().max(self.outer.3));
            u
        })
    }
}
pub fn note(s: &'static str) {
    TL.with(|t| t.note.set(s));
}
/// Point the coverage callbacks of this thread at `map` (length > guards()), or detach with null.
pub fn set_map(map: *mut u8) {
    TL.with(|t| t.map.set(map));
}
pub fn steps() -> u64 {
    TL.with(|t| t.steps.get())
}
