//! The seams: OS entropy, call-back events and faults, step budget, panics, thread scheduling.

use crate::rng::Rng;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

// ---------------------------------------------------------------- entropy

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5eed) };
    static ENTROPY_READS: Cell<u64> = const { Cell::new(0) };
}

/// libc's `getrandom`, interposed: std's hash keys and the `rand` crate's thread generator read
/// their OS entropy here, so one seed fixes them for a simulated execution (a fresh thread).
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let v = ENTROPY
            .try_with(|s| {
                let mut r = Rng(s.get());
                let v = r.u64();
                s.set(r.0);
                (v >> 24) as u8
            })
            .unwrap_or(7);
        unsafe { *buf.add(i) = v };
    }
    let _ = ENTROPY_READS.try_with(|c| c.set(c.get() + 1));
    len as isize
}

pub fn set_entropy(seed: u64) {
    ENTROPY.with(|s| s.set(crate::rng::mix(seed)));
}

pub fn entropy_reads() -> u64 {
    ENTROPY_READS.with(|c| c.get())
}

// ---------------------------------------------------------------- events, faults, budget

/// Call-backs from the crate into caller code at which a failure can be injected.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Ev {
    VAlloc = 0,
    EAlloc,
    FAlloc,
    EDefault,
    FDefault,
    Stream,
    Interp,
    Transform,
    Lerp,
    SetPos,
    SetNormal,
    Closure,
    FromPos,
    Curve,
}
pub const N_EV: usize = 14;
pub const EV_NAMES: [&str; N_EV] = [
    "vertex-payload-allocate",
    "edge-payload-allocate",
    "face-payload-allocate",
    "edge-payload-default",
    "face-payload-default",
    "stream-element",
    "interpolator",
    "payload-transform",
    "payload-lerp",
    "payload-set-pos",
    "payload-set-normal",
    "closure",
    "payload-from-pos",
    "edge-curve",
];

pub struct Injected;
pub struct OverBudget;

pub struct Ctx {
    pub ticks: u64,
    pub budget: u64,
    pub events: [u64; N_EV],
    pub fired: [u64; N_EV],
    /// armed fault: fire at the k-th (0-based) fault point from now on
    armed: Option<u64>,
    armed_seen: u64,
    last_panic: String,
    trace: Option<Vec<(u8, u64)>>,
    tags: u64,
}

thread_local! {
    static CTX: RefCell<Ctx> = const { RefCell::new(Ctx {
        ticks: 0, budget: u64::MAX, events: [0; N_EV], fired: [0; N_EV],
        armed: None, armed_seen: 0, last_panic: String::new(), trace: None, tags: 0 }) };
    static BATON: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
}

pub fn reset_ctx() {
    CTX.with(|c| {
        *c.borrow_mut() = Ctx {
            ticks: 0,
            budget: u64::MAX,
            events: [0; N_EV],
            fired: [0; N_EV],
            armed: None,
            armed_seen: 0,
            last_panic: String::new(),
            trace: None,
            tags: 0,
        }
    });
}

pub fn events() -> ([u64; N_EV], [u64; N_EV]) {
    CTX.with(|c| {
        let c = c.borrow();
        (c.events, c.fired)
    })
}

/// A fault point inside a call-back.
pub fn event(ev: Ev, arg: u64) {
    let fire = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.events[ev as usize] += 1;
        if let Some(t) = c.trace.as_mut() {
            t.push((ev as u8, arg));
        }
        if let Some(k) = c.armed {
            let s = c.armed_seen;
            c.armed_seen += 1;
            if s == k {
                c.armed = None;
                c.fired[ev as usize] += 1;
                return true;
            }
        }
        false
    });
    tick();
    if fire {
        panic_any(Injected);
    }
    intrude(1);
}

thread_local! {
    #[allow(clippy::type_complexity)]
    static INTRUDER: RefCell<Option<(Rng, u64, Box<dyn FnMut()>)>> = const { RefCell::new(None) };
}

/// Foreign work that runs between and inside calls: at a `1/rate` share of the call-backs, and
/// where the harness calls `intrude(0)`. It has its own tags, faults and budget.
pub fn set_intruder(f: Option<(u64, u64, Box<dyn FnMut()>)>) {
    INTRUDER.with(|i| *i.borrow_mut() = f.map(|(seed, rate, f)| (Rng::new(seed), rate, f)));
}

pub fn intrude(inside: u64) {
    let got = INTRUDER.with(|i| match i.try_borrow_mut() {
        Ok(mut g) => {
            let go = match g.as_mut() {
                Some((r, rate, _)) => inside == 0 || (*rate != 0 && r.below(*rate as usize) == 0),
                None => false,
            };
            if go {
                g.take()
            } else {
                None
            }
        }
        Err(_) => None,
    });
    let Some((r, rate, mut f)) = got else { return };
    let old = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let o = (c.armed.take(), c.armed_seen, c.budget, c.tags, c.trace.take(), c.ticks, c.last_panic.clone());
        c.budget = u64::MAX;
        c.tags = 1 << 40;
        o
    });
    f();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        (c.armed, c.armed_seen, c.budget, c.tags, c.trace, c.ticks, c.last_panic) = old;
    });
    INTRUDER.with(|i| *i.borrow_mut() = Some((r, rate, f)));
}

/// Adds what another simulated thread did to this thread's counters.
pub fn absorb(ev: &[u64; N_EV], fired: &[u64; N_EV], ticks: u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for k in 0..N_EV {
            c.events[k] += ev[k];
            c.fired[k] += fired[k];
        }
        c.ticks += ticks;
    });
}

pub fn arm(k: u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.armed = Some(k);
        c.armed_seen = 0;
    });
}

/// Disarms; returns whether the fault was still pending (did not fire).
pub fn disarm() -> bool {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.armed.take().is_some()
    })
}

pub fn trace_start() {
    CTX.with(|c| c.borrow_mut().trace = Some(Vec::new()));
}
pub fn trace_take() -> Vec<(u8, u64)> {
    CTX.with(|c| c.borrow_mut().trace.take().unwrap_or_default())
}

pub fn fresh_tag() -> u64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.tags += 1;
        c.tags
    })
}

/// A simulated instant: every payload clone (i.e. every edge step the crate takes) and call-back.
pub fn tick() {
    let over = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.ticks += 1;
        if c.budget != u64::MAX {
            if c.budget == 0 {
                c.budget = u64::MAX; // do not fire again while unwinding
                return true;
            }
            c.budget -= 1;
        }
        false
    });
    if over {
        panic_any(OverBudget);
    }
    yield_point();
}

pub fn ticks() -> u64 {
    CTX.with(|c| c.borrow().ticks)
}

// ---------------------------------------------------------------- guarded calls

#[derive(Debug)]
pub enum Res<R> {
    Ok(R),
    Injected,
    Panic(String),
    Budget,
}

impl<R> Res<R> {
    pub fn name(&self) -> &'static str {
        match self {
            Res::Ok(_) => "ok",
            Res::Injected => "injected",
            Res::Panic(_) => "panic",
            Res::Budget => "budget",
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let _ = CTX.try_with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.last_panic = format!("{} @ {}", first_line(&msg), loc);
            }
        });
    }));
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(160).collect()
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.downcast_ref::<Injected>().is_some() {
        "injected fault".into()
    } else if p.downcast_ref::<OverBudget>().is_some() {
        "step budget exceeded".into()
    } else {
        "panic".into()
    }
}

pub fn last_panic() -> String {
    CTX.with(|c| c.borrow().last_panic.clone())
}

/// Default per-call budget: far beyond what any terminating call on our mesh sizes needs.
pub const CALL_BUDGET: u64 = 4_000_000;

/// Runs a call into the crate, catching panics and bounding the number of simulated steps.
pub fn call<R>(f: impl FnOnce() -> R) -> Res<R> {
    call_b(CALL_BUDGET, f)
}

pub fn call_b<R>(budget: u64, f: impl FnOnce() -> R) -> Res<R> {
    let old = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let o = c.budget;
        c.budget = budget;
        o
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    CTX.with(|c| c.borrow_mut().budget = old);
    match r {
        Ok(r) => Res::Ok(r),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                Res::Injected
            } else if p.downcast_ref::<OverBudget>().is_some() {
                Res::Budget
            } else {
                Res::Panic(last_panic())
            }
        }
    }
}

// ---------------------------------------------------------------- baton scheduler

struct BatonState {
    current: usize,
    alive: Vec<bool>,
    rng: Rng,
    switches: u64,
    hash: u64,
    started: usize,
    quantum: usize,
}

/// Serialises real threads: exactly one runs; at every yield point the seeded scheduler may hand
/// the baton to another live thread.
pub struct Baton {
    st: Mutex<BatonState>,
    cv: Condvar,
    n: usize,
}

impl Baton {
    pub fn new(n: usize, seed: u64, quantum: usize) -> Arc<Self> {
        let mut rng = Rng::new(seed);
        let first = rng.below(n);
        Arc::new(Baton {
            st: Mutex::new(BatonState {
                current: first,
                alive: vec![true; n],
                rng,
                switches: 0,
                hash: 0,
                started: 0,
                quantum,
            }),
            cv: Condvar::new(),
            n,
        })
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, BatonState> {
        match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }

    /// Called by thread `id` first thing; blocks until it is scheduled.
    pub fn enter(self: &Arc<Self>, id: usize) {
        BATON.with(|b| *b.borrow_mut() = Some((self.clone(), id)));
        let mut g = self.lock();
        g.started += 1;
        self.cv.notify_all();
        while g.started < self.n || g.current != id {
            g = match self.cv.wait(g) {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
        }
    }

    /// Called by thread `id` when done.
    pub fn leave(self: &Arc<Self>, id: usize) {
        BATON.with(|b| *b.borrow_mut() = None);
        let mut g = self.lock();
        g.alive[id] = false;
        let live: Vec<usize> = (0..self.n).filter(|i| g.alive[*i]).collect();
        if !live.is_empty() {
            let k = g.rng.below(live.len());
            g.current = live[k];
            g.hash = crate::rng::mix2(g.hash, live[k] as u64 + 100);
        }
        self.cv.notify_all();
    }

    fn maybe_switch(&self, id: usize) {
        let mut g = self.lock();
        let q = g.quantum;
        if g.rng.below(q) != 0 {
            return;
        }
        let live: Vec<usize> = (0..self.n).filter(|i| g.alive[*i]).collect();
        let k = g.rng.below(live.len());
        let nxt = live[k];
        if nxt == id {
            return;
        }
        g.switches += 1;
        g.hash = crate::rng::mix2(g.hash, nxt as u64);
        g.current = nxt;
        self.cv.notify_all();
        while g.current != id {
            g = match self.cv.wait(g) {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
        }
    }

    pub fn stats(&self) -> (u64, u64) {
        let g = self.lock();
        (g.switches, g.hash)
    }
}

pub fn yield_point() {
    let b = BATON.with(|b| match b.try_borrow() {
        Ok(b) => b.clone(),
        Err(_) => None,
    });
    if let Some((b, id)) = b {
        b.maybe_switch(id);
    }
}
