//! The seams between the library and everything that can vary: hash seeds,
//! interruption and preemption inside caller-supplied types, panics.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use crate::sched::Sched;

thread_local! {
    static HASH_KEY: Cell<u64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static CANCEL_AT: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub static HASH_SEEDS_SERVED: AtomicU64 = AtomicU64::new(0);

/// Takes the place of libc's getrandom, which std uses to seed hash maps (once
/// per thread). With it the seed of every `RandomState` is a scenario value.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    HASH_SEEDS_SERVED.fetch_add(1, Ordering::Relaxed);
    let mut x = HASH_KEY.with(|k| k.get());
    let mut i = 0;
    while i < len {
        let v = crate::rng::splitmix(&mut x).to_le_bytes();
        let mut j = 0;
        while j < 8 && i < len {
            *buf.add(i) = v[j];
            i += 1;
            j += 1;
        }
    }
    len as isize
}

/// Must be called first thing in a fresh thread.
pub fn set_hash_key(k: u64) {
    HASH_KEY.with(|c| c.set(k));
}

pub fn enter_task(sched: Arc<Sched>, me: usize) {
    SCHED.with(|s| *s.borrow_mut() = Some((sched, me)));
}

pub fn current_task() -> Option<(Arc<Sched>, usize)> {
    SCHED.with(|s| s.borrow().clone())
}

struct Cancelled;
struct OutOfBudget(&'static str);

#[derive(Debug)]
pub enum Abandon {
    /// Interrupted on purpose.
    Cancelled,
    /// Exceeded its budget of operations: treated as running on for ever.
    Budget(&'static str),
    Panic(String),
}

/// A point at which the library has handed control to a type of the caller.
/// May be cancelled here, or preempted by another simulated thread.
pub fn tick() {
    if !ACTIVE.with(|a| a.get()) {
        return;
    }
    let n = TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        n
    });
    if n == CANCEL_AT.with(|c| c.get()) {
        CANCEL_AT.with(|c| c.set(0));
        panic_any(Cancelled);
    }
    if n > BUDGET.with(|b| b.get()) {
        panic_any(OutOfBudget("operations on caller-supplied values"));
    }
    yield_now();
}

/// Lets the scheduler run somebody else.
pub fn yield_now() {
    if std::thread::panicking() {
        return;
    }
    let s = SCHED.with(|s| s.borrow().clone());
    if let Some((sched, me)) = s {
        let was = ACTIVE.with(|a| a.replace(false));
        sched.yield_point(me);
        ACTIVE.with(|a| a.set(was));
    }
}

pub fn out_of_budget(what: &'static str) -> ! {
    panic_any(OutOfBudget(what))
}

pub const TICK_BUDGET: u64 = 30_000_000;

/// Calls into the library. `cancel` is the number of the tick at which the
/// call is to be interrupted. Returns the result and the ticks used.
pub fn call_ticks<R>(cancel: Option<u64>, f: impl FnOnce() -> R) -> (Result<R, Abandon>, u64) {
    call_within(cancel, TICK_BUDGET, f)
}

/// The same with a budget of its own.
pub fn call_within<R>(cancel: Option<u64>, budget: u64, f: impl FnOnce() -> R) -> (Result<R, Abandon>, u64) {
    ACTIVE.with(|a| a.set(true));
    TICKS.with(|t| t.set(0));
    CANCEL_AT.with(|c| c.set(cancel.unwrap_or(0)));
    BUDGET.with(|b| b.set(budget));
    let res = catch_unwind(AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(false));
    CANCEL_AT.with(|c| c.set(0));
    let ticks = TICKS.with(|t| t.get());
    (res.map_err(classify), ticks)
}

pub fn call<R>(cancel: Option<u64>, f: impl FnOnce() -> R) -> Result<R, Abandon> {
    call_ticks(cancel, f).0
}

fn classify(p: Box<dyn Any + Send>) -> Abandon {
    if p.is::<Cancelled>() {
        Abandon::Cancelled
    } else if let Some(b) = p.downcast_ref::<OutOfBudget>() {
        Abandon::Budget(b.0)
    } else {
        Abandon::Panic(LAST_PANIC.with(|l| l.borrow().clone()))
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Cancelled>() || p.is::<OutOfBudget>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|l| *l.borrow_mut() = text);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// The arithmetic of a primitive type gave up.
pub fn is_overflow(e: &Abandon) -> bool {
    matches!(e, Abandon::Panic(t) if t.contains("overflow"))
}
