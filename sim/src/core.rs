//! Deterministic simulator core: one process, one baton, three choice tapes.
//!
//! * every simulated task is a real OS thread, but exactly one of them holds
//!   the baton; the seeded scheduler decides at every yield point who gets it;
//! * every random decision is drawn from one of three tapes (W: workload,
//!   S: schedule, F: faults) generated by a PRNG seeded from VERIF_SEED and the
//!   run number; a run is a pure function of its tapes and the code;
//! * the hash keys std hands to `RandomState` come from the simulator as well
//!   (interposed `getrandom`), per task.

use std::any::Any;
use std::cell::{Cell as StdCell, RefCell};
use std::collections::BTreeMap;
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard};
use std::thread::{self, Thread};

pub mod cells;
pub mod driver;

/* ------------------------------------------------------------------ PRNG -- */

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0x5851f42d4c957f2d) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1.wrapping_mul(0x9e3779b97f4a7c15) | 1);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/* ------------------------------------------------------------------ Tape -- */

/// A recorded sequence of bounded choices. Past its end it either draws from
/// its PRNG (generation) or answers 0, the simplest choice (replay).
#[derive(Clone, Debug, Default)]
pub struct Tape {
    pub vals: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn generate(seed: u64) -> Tape {
        Tape {
            vals: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
        }
    }
    pub fn replay(vals: Vec<u64>) -> Tape {
        Tape {
            vals,
            pos: 0,
            rng: None,
        }
    }
    fn draw(&mut self, n: u64, name: u8) -> u64 {
        let v = if self.pos < self.vals.len() {
            let v = self.vals[self.pos];
            if v >= n {
                n - 1
            } else {
                v
            }
        } else if let Some(r) = &mut self.rng {
            let v = r.below(n);
            self.vals.push(v);
            dump_draw(name, v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

/// When set, every generated choice is also appended to this file at once, so
/// that the tapes of a run that kills the process can be recovered.
static DUMP: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn set_dump(f: Option<std::fs::File>) {
    *DUMP.lock().unwrap() = f;
}

fn dump_draw(name: u8, v: u64) {
    use std::io::Write;
    if !DUMP_ON.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    if let Ok(mut g) = DUMP.lock() {
        if let Some(f) = g.as_mut() {
            let _ = f.write_all(format!("{} {}\n", name as char, v).as_bytes());
        }
    }
}

pub static DUMP_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Debug, Default)]
pub struct Tapes {
    pub w: Vec<u64>,
    pub s: Vec<u64>,
    pub f: Vec<u64>,
}

/* -------------------------------------------------- hash-key interposition */

thread_local! {
    static HASH_SEED: StdCell<u64> = const { StdCell::new(0x1234_5678_9abc_def0) };
    static HASH_CTR: StdCell<u64> = const { StdCell::new(0) };
}

/// std resolves `getrandom` through a weak symbol precisely so that it can be
/// interposed; this is the seam for `RandomState` keys.
///
/// # Safety
/// Called by libc users with a valid buffer of `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = HASH_SEED.with(|s| s.get());
    let mut i = 0;
    while i < len {
        let c = HASH_CTR.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        let bytes = mix(seed ^ mix(c)).to_le_bytes();
        let mut j = 0;
        while j < 8 && i < len {
            *buf.add(i) = bytes[j];
            i += 1;
            j += 1;
        }
    }
    len as isize
}

pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|s| s.set(seed));
    HASH_CTR.with(|c| c.set(0));
}

/* ------------------------------------------------------------- Sim state -- */

/// Payload of an injected caller panic.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SimFault(pub u64);

/// Payload used to tear a run down after a violation.
struct SimAbort;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TS {
    Ready,
    Asleep(u64),
    Done,
}

struct St {
    w: Tape,
    s: Tape,
    f: Tape,
    tick: u64,
    gap: u64,
    gap_scale: u64,
    budget: u64,
    tasks: Vec<TS>,
    threads: Vec<Option<Thread>>,
    current: usize,
    violation: Option<Violation>,
    hash: u64,
    ilv: u64,
    switches: u64,
    faults: u64,
    fault_ctr: u64,
    task_fault: Vec<u64>,
    log: Option<Vec<String>>,
    stats: BTreeMap<&'static str, u64>,
}

pub struct Sim {
    st: Mutex<St>,
}

struct TaskCtx {
    sim: Arc<Sim>,
    id: usize,
}

thread_local! {
    static CTX: RefCell<Option<TaskCtx>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: StdCell<u32> = const { StdCell::new(0) };
}

fn with_sim<R>(f: impl FnOnce(&Arc<Sim>, usize) -> R) -> R {
    CTX.with(|c| {
        let c = c.borrow();
        let t = c.as_ref().expect("harness: not inside a simulated run");
        f(&t.sim, t.id)
    })
}

fn sim_and_id() -> (Arc<Sim>, usize) {
    with_sim(|s, id| (s.clone(), id))
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, St> {
        match self.st.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
}

impl St {
    fn ev(&mut self, id: usize, kind: &'static str, a: i64, b: i64) {
        let mut h = self.hash ^ mix(a as u64) ^ mix((b as u64).wrapping_add(77)) ^ (id as u64) << 56;
        for byte in kind.bytes() {
            h = (h ^ byte as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = mix(h);
        let tick = self.tick;
        if let Some(log) = &mut self.log {
            if log.len() < 20_000 {
                log.push(format!("t={tick} task{id} {kind} {a} {b}"));
            }
        }
    }
}

/// What one simulated run produced.
#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub hash: u64,
    pub ilv: u64,
    pub switches: u64,
    pub faults: u64,
    pub ticks: u64,
    pub tapes: Tapes,
    pub log: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
}

/* ------------------------------------------------- API used by scenarios -- */

/// Draw from the workload tape: a value in `0..n`, 0 being the simplest.
pub fn w(n: u64) -> u64 {
    with_sim(|s, _| s.lock().w.draw(n, b'w'))
}
/// Workload: true with probability num/den (false is the simple choice).
pub fn wp(num: u64, den: u64) -> bool {
    w(den) >= den - num
}
/// Workload draw of an index into a slice.
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[w(v.len() as u64) as usize]
}
/// Draw from the fault tape.
pub fn f(n: u64) -> u64 {
    with_sim(|s, _| s.lock().f.draw(n, b'f'))
}
pub fn fp(num: u64, den: u64) -> bool {
    f(den) >= den - num
}

/// Log an event (always folded into the run hash, text only when replaying).
pub fn ev(kind: &'static str, a: i64, b: i64) {
    with_sim(|s, id| s.lock().ev(id, kind, a, b));
}

/// Free-form line for the human-readable trace.
pub fn note(msg: impl FnOnce() -> String) {
    with_sim(|s, id| {
        let mut st = s.lock();
        let tick = st.tick;
        if let Some(log) = &mut st.log {
            if log.len() < 20_000 {
                log.push(format!("t={tick} task{id} # {}", msg()));
            }
        }
    });
}

pub fn stat(name: &'static str) {
    stat_n(name, 1);
}
pub fn stat_n(name: &'static str, n: u64) {
    with_sim(|s, _| *s.lock().stats.entry(name).or_insert(0) += n);
}

/// Record that a fault of the given kind actually fired.
pub fn fault_fired(kind: &'static str) {
    with_sim(|s, id| {
        let mut st = s.lock();
        st.faults += 1;
        st.ev(id, kind, 0, 0);
        *st.stats.entry(kind).or_insert(0) += 1;
    });
}

/// A panic injected into caller-supplied code.
pub fn inject_panic(kind: &'static str) -> ! {
    fault_fired(kind);
    let n = with_sim(|s, id| {
        let mut st = s.lock();
        st.fault_ctr += 1;
        let n = st.fault_ctr;
        if st.task_fault.len() <= id {
            st.task_fault.resize(id + 1, 0);
        }
        st.task_fault[id] = n;
        n
    });
    panic::panic_any(SimFault(n));
}

/// The oracle found a violation: record it and tear the run down.
pub fn fail(class: &str, msg: String) -> ! {
    fail_soft(class, msg);
    panic::panic_any(SimAbort);
}

/// As `fail`, where unwinding is not possible (destructors): the run ends at
/// its next scheduling point.
pub fn fail_soft(class: &str, msg: String) {
    with_sim(|s, id| {
        let mut st = s.lock();
        if st.violation.is_none() {
            st.violation = Some(Violation {
                class: class.to_string(),
                msg: msg.clone(),
            });
            let tick = st.tick;
            if let Some(log) = &mut st.log {
                log.push(format!("t={tick} task{id} VIOLATION {class}: {msg}"));
            }
        }
    });
}

/// Whether this thread is inside a simulated run.
pub fn in_run() -> bool {
    CTX.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false)).unwrap_or(false)
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond {
            $crate::fail($class, format!($($fmt)*));
        }
    };
}

/// Current simulated time, in scheduler ticks.
pub fn now() -> u64 {
    with_sim(|s, _| s.lock().tick)
}

/// A point where the scheduler may hand the baton to another task.
pub fn yp() {
    if thread::panicking() {
        return;
    }
    let (sim, id) = sim_and_id();
    let mut st = sim.lock();
    st.tick += 1;
    if st.tick > st.budget && st.violation.is_none() {
        st.violation = Some(Violation {
            class: "no-progress".to_string(),
            msg: format!("the run was still going after {} steps", st.budget),
        });
    }
    if st.violation.is_some() {
        drop(st);
        panic::panic_any(SimAbort);
    }
    if st.tasks.len() <= 1 {
        return;
    }
    if st.gap > 0 {
        st.gap -= 1;
        return;
    }
    let g = 2 * st.gap_scale;
    st.gap = st.s.draw(g, b's');
    switch(&sim, st, id, false);
}

/// Give up the baton because this task cannot proceed right now.
pub fn yield_blocked() {
    let (sim, id) = sim_and_id();
    let mut st = sim.lock();
    st.tick += 1;
    if st.violation.is_some() {
        drop(st);
        panic::panic_any(SimAbort);
    }
    switch(&sim, st, id, true);
}

/// Stall this task for `ticks` of simulated time.
pub fn sleep(ticks: u64) {
    let (sim, id) = sim_and_id();
    let mut st = sim.lock();
    if st.tasks.len() <= 1 {
        st.tick += ticks;
        return;
    }
    st.tasks[id] = TS::Asleep(st.tick + ticks);
    switch(&sim, st, id, true);
}

/// Choose the next task and wait for the baton to come back.
fn switch(sim: &Arc<Sim>, mut st: MutexGuard<'_, St>, id: usize, not_me: bool) {
    let next = choose(&mut st, id, not_me);
    if next == id {
        return;
    }
    st.current = next;
    let th = st.threads[next].clone();
    drop(st);
    if let Some(t) = th {
        t.unpark();
    }
    wait_turn(sim, id);
}

fn choose(st: &mut St, id: usize, not_me: bool) -> usize {
    let n = st.tasks.len();
    loop {
        // Candidates, the current task first, so that choice 0 means "stay".
        let mut cand: Vec<usize> = Vec::with_capacity(n);
        for k in 0..n {
            let t = (id + k) % n;
            if not_me && t == id && matches!(st.tasks[t], TS::Ready) {
                continue;
            }
            match st.tasks[t] {
                TS::Ready => cand.push(t),
                TS::Asleep(until) if until <= st.tick => {
                    st.tasks[t] = TS::Ready;
                    cand.push(t)
                }
                _ => {}
            }
        }
        if cand.is_empty() {
            // Nothing runnable: jump simulated time to the next wake-up.
            let wake = st
                .tasks
                .iter()
                .filter_map(|t| match t {
                    TS::Asleep(u) => Some(*u),
                    _ => None,
                })
                .min();
            match wake {
                Some(u) => {
                    st.tick = st.tick.max(u);
                    continue;
                }
                None => return id, // only this task is left
            }
        }
        let k = if cand.len() == 1 {
            0
        } else {
            st.s.draw(cand.len() as u64, b's') as usize
        };
        let next = cand[k];
        if next != id {
            st.switches += 1;
            let tick = st.tick;
            st.ilv = mix(st.ilv ^ ((next as u64) << 48) ^ st.hash);
            st.ev(id, "switch", next as i64, tick as i64);
        }
        return next;
    }
}

fn wait_turn(sim: &Arc<Sim>, id: usize) {
    loop {
        {
            let st = sim.lock();
            if st.current == id {
                let dead = st.violation.is_some();
                drop(st);
                if dead && !thread::panicking() {
                    panic::panic_any(SimAbort);
                }
                return;
            }
        }
        thread::park();
    }
}

pub type Task = Box<dyn FnOnce() + Send>;

/// Scheduling density of the run.
pub fn set_gap_scale(scale: u64) {
    with_sim(|s, _| s.lock().gap_scale = scale.max(1));
}

/// Steps after which the run counts as never finishing.
pub fn set_step_budget(n: u64) {
    with_sim(|s, _| {
        let mut st = s.lock();
        st.budget = st.tick + n;
    });
}

/// Run the tasks to completion under the seeded scheduler. Must be called by
/// the root of the run.
pub fn run_tasks(tasks: Vec<(u64, Task)>, stack: usize) {
    let (sim, root) = sim_and_id();
    assert_eq!(root, 0, "harness: nested run_tasks");
    let n = tasks.len();
    if n == 0 {
        return;
    }
    if n == 1 {
        for (_, t) in tasks {
            t();
        }
        return;
    }
    {
        let mut st = sim.lock();
        st.tasks = vec![TS::Ready; n];
        st.threads = vec![None; n];
        st.current = usize::MAX;
    }
    let mut handles = vec![];
    for (id, (hseed, task)) in tasks.into_iter().enumerate() {
        let sim2 = sim.clone();
        let h = thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                set_hash_seed(hseed);
                CTX.with(|c| {
                    *c.borrow_mut() = Some(TaskCtx {
                        sim: sim2.clone(),
                        id,
                    })
                });
                let res = panic::catch_unwind(AssertUnwindSafe(|| {
                    wait_turn(&sim2, id);
                    task();
                }));
                let mut err = None;
                if let Err(p) = res {
                    err = classify_escape(&sim2, p);
                }
                // Hand the baton on.
                let mut st = sim2.lock();
                st.tasks[id] = TS::Done;
                if st.tasks.iter().any(|t| *t != TS::Done) {
                    let next = choose(&mut st, id, true);
                    st.current = next;
                    let th = st.threads[next].clone();
                    drop(st);
                    if let Some(t) = th {
                        t.unpark();
                    }
                }
                CTX.with(|c| *c.borrow_mut() = None);
                err
            })
            .expect("harness: spawn");
        sim.lock().threads[id] = Some(h.thread().clone());
        handles.push(h);
    }
    // First baton.
    let th = {
        let mut st = sim.lock();
        let k = st.s.draw(n as u64, b's') as usize;
        st.current = k;
        st.threads[k].clone()
    };
    if let Some(t) = th {
        t.unpark();
    }
    let mut harness_err = None;
    for h in handles {
        match h.join() {
            Ok(None) => {}
            Ok(Some(e)) => harness_err = Some(e),
            Err(_) => harness_err = Some("task thread died".to_string()),
        }
    }
    {
        let mut st = sim.lock();
        st.tasks = vec![TS::Ready];
        st.threads = vec![None];
        st.current = 0;
        if st.violation.is_some() {
            drop(st);
            panic::panic_any(SimAbort);
        }
    }
    if let Some(e) = harness_err {
        panic!("{e}");
    }
}

/// A panic that reached the top of a task: SimAbort is a recorded violation,
/// anything else is a harness error (library calls are all wrapped).
fn classify_escape(sim: &Arc<Sim>, p: Box<dyn Any + Send>) -> Option<String> {
    if p.is::<SimAbort>() {
        return None;
    }
    let msg = panic_text(&p);
    let mut st = sim.lock();
    if st.violation.is_some() {
        return None;
    }
    if msg.contains("src/sqrid/") {
        // Not expected here, but raised by the library all the same.
        st.violation = Some(Violation {
            class: "library-panic".to_string(),
            msg: format!("the library panicked: {msg}"),
        });
        return None;
    }
    let m = format!("harness panic: {msg}");
    if let Some(log) = &mut st.log {
        log.push(m.clone());
    }
    Some(m)
}

fn panic_text(p: &Box<dyn Any + Send>) -> String {
    let last = LAST_PANIC.with(|l| l.borrow().clone());
    if let Some(f) = p.downcast_ref::<SimFault>() {
        return format!("injected fault #{}", f.0);
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return format!("{s} ({last})");
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return format!("{s} ({last})");
    }
    last
}

/// How a call into the library ended.
pub enum Call<R> {
    Done(R),
    /// The injected panic came back to the caller, payload intact.
    Injected(u64),
    /// The library (or something below it) panicked on its own.
    Panicked(String),
}

/// Call into the library, catching the panics a caller would catch.
pub fn call<R>(body: impl FnOnce() -> R) -> Call<R> {
    match panic::catch_unwind(AssertUnwindSafe(body)) {
        Ok(r) => Call::Done(r),
        Err(p) => {
            if p.is::<SimAbort>() {
                panic::resume_unwind(p);
            }
            if let Some(fault) = p.downcast_ref::<SimFault>() {
                return Call::Injected(fault.0);
            }
            Call::Panicked(panic_text(&p))
        }
    }
}

/// As `call`, when the library must not panic on its own.
pub fn call_np<R>(class: &str, what: &str, body: impl FnOnce() -> R) -> Result<R, u64> {
    match call(body) {
        Call::Done(r) => Ok(r),
        Call::Injected(n) => Err(n),
        Call::Panicked(m) => fail(class, format!("{what} panicked: {m}")),
    }
}

/// Number of the fault most recently injected into this task.
pub fn last_fault() -> u64 {
    with_sim(|s, id| s.lock().task_fault.get(id).copied().unwrap_or(0))
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("at {loc}"));
        if std::env::var_os("DST_SHOW_PANICS").is_some() {
            eprintln!("panic at {loc}");
        }
    }));
}

pub type Scenario = fn();

/// Execute one run. `gen`: Some(seed) generates, None replays `tapes`.
pub fn run_one(scn: Scenario, gen: Option<u64>, tapes: Tapes, verbose: bool, stack: usize) -> RunOut {
    let (wt, stp, ft) = match gen {
        Some(seed) => (
            Tape::generate(mix(seed ^ 0x57)),
            Tape::generate(mix(seed ^ 0x53)),
            Tape::generate(mix(seed ^ 0x46)),
        ),
        None => (
            Tape::replay(tapes.w),
            Tape::replay(tapes.s),
            Tape::replay(tapes.f),
        ),
    };
    let sim = Arc::new(Sim {
        st: Mutex::new(St {
            w: wt,
            s: stp,
            f: ft,
            tick: 0,
            gap: 0,
            gap_scale: 4,
            budget: 40_000_000,
            tasks: vec![TS::Ready],
            threads: vec![None],
            current: 0,
            violation: None,
            hash: 0,
            ilv: 0,
            switches: 0,
            faults: 0,
            fault_ctr: 0,
            task_fault: vec![],
            log: if verbose { Some(vec![]) } else { None },
            stats: BTreeMap::new(),
        }),
    });
    let sim2 = sim.clone();
    // A fresh thread per run: std draws RandomState keys once per thread.
    let h = thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            CTX.with(|c| {
                *c.borrow_mut() = Some(TaskCtx {
                    sim: sim2.clone(),
                    id: 0,
                })
            });
            let seed = w(1 << 32);
            set_hash_seed(seed);
            let r = panic::catch_unwind(AssertUnwindSafe(scn));
            let mut err = None;
            if let Err(p) = r {
                err = classify_escape(&sim2, p);
            }
            CTX.with(|c| *c.borrow_mut() = None);
            err
        })
        .expect("harness: spawn");
    let herr = match h.join() {
        Ok(e) => e,
        Err(_) => Some("root thread died".into()),
    };
    let mut st = sim.lock();
    let mut out = RunOut {
        violation: st.violation.clone(),
        harness_error: herr,
        hash: mix(st.hash ^ mix(st.w.used() as u64) ^ mix(st.s.used() as u64 + (1 << 40))),
        ilv: st.ilv,
        switches: st.switches,
        faults: st.faults,
        ticks: st.tick,
        tapes: Tapes::default(),
        log: st.log.take().unwrap_or_default(),
        stats: std::mem::take(&mut st.stats),
    };
    if out.violation.is_some() {
        out.harness_error = None;
    }
    let trim = |t: &Tape| {
        let mut v = t.vals.clone();
        v.truncate(t.used());
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    out.tapes = Tapes {
        w: trim(&st.w),
        s: trim(&st.s),
        f: trim(&st.f),
    };
    out
}

/* ---------------------------------------------------------- small helpers */

/// Wrapper asserting Send/Sync: only the baton holder ever touches the value,
/// and hand-over happens through the simulator's mutex.
pub struct Baton<T>(pub T);
unsafe impl<T> Send for Baton<T> {}
unsafe impl<T> Sync for Baton<T> {}

impl<T> Baton<T> {
    pub fn into(self) -> T {
        self.0
    }
}
