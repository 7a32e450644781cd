//! C17: the iterations behind A* and uniform-cost search deliver every
//! reachable position once, in order, each with a step towards the origin.

use crate::ops::*;
use crate::spaces::*;
use crate::world::*;
use simcore::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// What the caller answered so far. Every question is expected once, so these
/// answers are a fixed world even when the simulated one changes midway.
pub struct Answers {
    w: u32,
    h: u32,
    /// Per cell and direction: not asked, refused, or target and cost.
    got: Vec<Option<Option<(u32, usize)>>>,
    /// A question was repeated and answered differently.
    pub clash: bool,
}

impl Answers {
    pub fn new(w: u32, h: u32) -> Answers {
        Answers {
            w,
            h,
            got: vec![None; (w * h) as usize * 8],
            clash: false,
        }
    }
    pub fn record(&mut self, c: u32, d: usize, r: Option<(u32, usize)>) {
        let e = &mut self.got[c as usize * 8 + d];
        if e.is_some_and(|x| x != r) {
            self.clash = true;
        }
        *e = Some(r);
    }
    fn get(&self, c: u32, d: usize) -> Option<(u32, usize)> {
        self.got[c as usize * 8 + d].flatten()
    }
    /// Fewest moves, counting answered moves only.
    pub fn dist(&self, o: u32) -> Vec<u32> {
        let mut v = vec![u32::MAX; (self.w * self.h) as usize];
        v[o as usize] = 0;
        let mut q = vec![o];
        let mut i = 0;
        while i < q.len() {
            let c = q[i];
            i += 1;
            for d in 0..8 {
                if let Some((k, _)) = self.get(c, d) {
                    if v[k as usize] == u32::MAX {
                        v[k as usize] = v[c as usize] + 1;
                        q.push(k);
                    }
                }
            }
        }
        v
    }
    /// Least total cost, counting answered moves only: relaxation from a
    /// worklist until nothing changes.
    fn cheapest(&self, o: u32) -> Vec<Option<u128>> {
        let n = (self.w * self.h) as usize;
        let mut v: Vec<Option<u128>> = vec![None; n];
        v[o as usize] = Some(0);
        let mut q = std::collections::BTreeSet::from([(0u128, o)]);
        while let Some((s, c)) = q.pop_first() {
            for d in 0..8 {
                if let Some((k, cost)) = self.get(c, d) {
                    let t = s + cost as u128;
                    if v[k as usize].is_none_or(|x| t < x) {
                        if let Some(x) = v[k as usize] {
                            q.remove(&(x, k));
                        }
                        v[k as usize] = Some(t);
                        q.insert((t, k));
                    }
                }
            }
        }
        v
    }
}

const TOP: u128 = usize::MAX as u128;

struct St {
    world: World,
    ans: Answers,
}

struct Trav {
    algo: u8,
    o: u32,
    n: u32,
    cur: Box<dyn Cursor>,
    st: Rc<RefCell<St>>,
    hk: Rc<Hooks>,
    /// Total cost (moves, for A*) of the walk each delivered cell came with.
    label: Vec<Option<u128>>,
    delivered: Vec<bool>,
    count: usize,
    last: u128,
    /// Totals in the unchanging world.
    truth: Option<Vec<Option<u128>>>,
    hints: Vec<(usize, usize, Option<usize>)>,
    panicked: bool,
    done: bool,
    what: String,
}

fn totals(algo: u8, world: &World, o: u32) -> Vec<Option<u128>> {
    if algo == 2 {
        world.cheapest(o)
    } else {
        world.dist(o).iter().map(|d| (*d != u32::MAX).then_some(*d as u128)).collect()
    }
}

impl Trav {
    fn new(mix: Mix, is_static: bool, faulty: bool) -> Option<Trav> {
        let sp = pick_space(mix);
        let mut world = gen_world(sp.w(), sp.h(), sp.d());
        let n = world.n();
        let algo = 1 + w(2) as u8;
        let o = world.origin();
        let dest = w(n as u64) as u32;
        let fl = *pick(sp.iter_flavors());
        if !is_static && matches!(world.costs, Costs::Dear(_)) {
            world.costs = Costs::Small(w(1 << 16));
        }
        let mut hk = Hooks::plain();
        hk.limit = 64 * (n as u64 + 2);
        if faulty {
            hk.panic_at = 1 + f(80);
        }
        if fp(1, 12) {
            hk.stall_at = 1 + f(60);
        }
        if n <= 400 && wp(1, 12) {
            hk.nest_at = 1 + w(40);
            *hk.nest.borrow_mut() = Some(Box::new(|| noise(Mix::Small)));
        }
        let hk = Rc::new(hk);
        let what = format!(
            "{} iteration [{}] on {} from cell {} (to {}); {}",
            ALGO[algo as usize],
            ITER_FLAVOR[fl as usize],
            sp.name(),
            o,
            dest,
            world.show()
        );
        note(|| what.clone());
        let truth = is_static.then(|| totals(algo, &world, o));
        let st = Rc::new(RefCell::new(St {
            ans: Answers::new(world.w, world.h),
            world,
        }));
        let (s2, h2) = (st.clone(), hk.clone());
        let ask = move |c: u32, d: usize| -> Option<(u32, usize)> {
            h2.enter("fault:panic-in-go");
            let mut s = s2.borrow_mut();
            let r = s.world.go(c, d).map(|k| (k, if algo == 2 { s.world.cost(c, d) } else { 1 }));
            s.ans.record(c, d, r);
            r
        };
        let made = call(|| {
            if algo == 1 {
                sp.astar_iter(fl, Rc::new(move |c, d| ask(c, d).map(|r| r.0)), o, dest)
            } else {
                sp.ucs_iter(fl, Rc::new(ask), o)
            }
        });
        let cur = match made {
            Call::Done(c) => c,
            Call::Injected(_) => return None,
            Call::Panicked(m) => fail("library-panic", format!("creating the iteration panicked: {m}; {what}")),
        };
        Some(Trav {
            algo,
            o,
            n,
            cur,
            st,
            hk,
            label: vec![None; n as usize],
            delivered: vec![false; n as usize],
            count: 0,
            last: 0,
            truth,
            hints: vec![],
            panicked: false,
            done: false,
            what,
        })
    }

    /// The world changes while the iteration is suspended.
    fn disturb(&mut self) {
        if self.truth.is_some() || self.done {
            return;
        }
        fault_fired("fault:world-changed-midway");
        let mut s = self.st.borrow_mut();
        for _ in 0..1 + f(6) {
            let c = f(self.n as u64) as usize;
            let bit = 1u8 << f(8);
            if (s.world.d || bit & 0x55 != 0) && s.world.nb(c as u32, bit.trailing_zeros() as usize).is_some() {
                s.world.allow[c] ^= bit;
            }
        }
        if fp(1, 3) {
            s.world.costs = match f(4) {
                0 => Costs::One,
                1 => Costs::WithZero(f(1 << 16)),
                2 => Costs::ByDir(f(1 << 16)),
                _ => Costs::Small(f(1 << 16)),
            };
        }
    }

    fn step(&mut self) {
        if self.done {
            return;
        }
        if self.truth.is_some() && self.hints.len() < 64 {
            let (lo, hi) = self.cur.hint();
            self.hints.push((self.count, lo, hi));
        }
        let r = call(|| self.cur.step());
        let item = match r {
            Call::Done(x) => x,
            Call::Injected(_) => {
                self.panicked = true;
                stat("continued-after-panic");
                return;
            }
            Call::Panicked(m) => fail("library-panic", format!("the iteration panicked: {m}; {}", self.what)),
        };
        stat("checked");
        match item {
            None => {
                ev("ended", self.count as i64, 0);
                self.ended();
            }
            Some(v) => {
                ev("item", v[0].0 as i64, v[0].1 as i64);
                self.judge(v[0].0, v[0].1);
            }
        }
    }

    fn judge(&mut self, c: u32, d: usize) {
        ensure!(!self.delivered[c as usize], "delivered-twice", "cell {c} was delivered again as item {}: {}", self.count, self.what);
        self.delivered[c as usize] = true;
        let first = self.count == 0;
        self.count += 1;
        if c == self.o {
            ensure!(first || self.panicked, "origin-not-first", "the origin was delivered as item {}: {}", self.count - 1, self.what);
            self.label[c as usize] = Some(0);
            return;
        }
        ensure!(!first || self.panicked, "origin-not-first", "cell {c} was delivered before the origin {}: {}", self.o, self.what);
        let s = self.st.borrow();
        let back = (d + 4) % 8;
        let step = nb(s.world.w, s.world.h, c, d).and_then(|p| s.ans.get(p, back).filter(|(k, _)| *k == c).map(|(_, cost)| (p, cost)));
        let Some((p, cost)) = step else {
            fail(
                "wrong-back-direction",
                format!("cell {c} came with direction {d}, but no move into it with direction {back} was answered: {}", self.what),
            )
        };
        if self.panicked || s.ans.clash {
            // The cell whose step was cut short may be missing.
            return;
        }
        let Some(before) = self.label[p as usize] else {
            fail(
                "wrong-back-direction",
                format!("cell {c} came with direction {d}, which leads to cell {p}, not delivered before it: {}", self.what),
            )
        };
        let total = before + cost as u128;
        self.label[c as usize] = Some(total);
        if self.algo == 2 {
            ensure!(
                total.min(TOP) >= self.last.min(TOP),
                "out-of-order",
                "cell {c} with total cost {total} was delivered after one with {}: {}",
                self.last,
                self.what
            );
            self.last = total;
        }
        if let Some(t) = &self.truth {
            self.right_total(c, t[c as usize]);
        }
    }

    fn right_total(&self, c: u32, want: Option<u128>) {
        let got = self.label[c as usize];
        match (got, want) {
            // Totals that no usize holds are nobody's business.
            (_, Some(x)) if x >= TOP => {}
            (Some(a), Some(b)) => ensure!(
                a == b,
                "not-the-best-walk",
                "cell {c} was delivered with a walk of total {a}, the best is {b}: {}",
                self.what
            ),
            (None, Some(b)) => fail("cell-never-delivered", format!("cell {c} (total {b}) was never delivered: {}", self.what)),
            (Some(a), None) => fail("cell-invented", format!("unreachable cell {c} was delivered with total {a}: {}", self.what)),
            (None, None) => {}
        }
    }

    fn ended(&mut self) {
        self.done = true;
        stat("exhausted");
        stat_n("callbacks", self.hk.calls.get());
        if !self.panicked {
            let s = self.st.borrow();
            if let Some(t) = &self.truth {
                for c in 0..self.n {
                    self.right_total(c, t[c as usize]);
                }
            } else if !s.ans.clash {
                // The moves as they were answered.
                let want = if self.algo == 2 {
                    s.ans.cheapest(self.o)
                } else {
                    s.ans.dist(self.o).iter().map(|d| (*d != u32::MAX).then_some(*d as u128)).collect()
                };
                for c in 0..self.n {
                    self.right_total(c, want[c as usize]);
                }
                stat("judged-by-answers");
            }
            drop(s);
            for (at, lo, hi) in &self.hints {
                let left = self.count - at;
                ensure!(
                    *lo <= left && hi.is_none_or(|h| left <= h),
                    "wrong-size-hint",
                    "after {at} items the iteration promised {lo}..{hi:?} more and delivered {left}: {}",
                    self.what
                );
            }
        }
        // Finished stays finished.
        if let Call::Done(x) = call(|| self.cur.step()) {
            ensure!(x.is_none(), "revived", "the iteration delivered {x:?} after it had ended: {}", self.what);
        }
    }
}

type Pool = Arc<Mutex<Baton<Vec<Trav>>>>;

fn take(pool: &Pool, k: u64) -> Option<Trav> {
    let mut p = pool.lock().unwrap();
    if p.0.is_empty() {
        return None;
    }
    let k = (k % p.0.len() as u64) as usize;
    Some(p.0.swap_remove(k))
}

fn client(pool: Pool, ops: u64) {
    for _ in 0..ops {
        yp();
        match w(16) {
            15 => noise(Mix::Small),
            14 => {
                if let Some(t) = take(&pool, w(64)) {
                    if wp(1, 4) {
                        fault_fired("fault:iteration-abandoned");
                        drop(t);
                    } else {
                        pool.lock().unwrap().0.push(t);
                    }
                }
            }
            12 | 13 => {
                if let Some(mut t) = take(&pool, w(64)) {
                    t.disturb();
                    pool.lock().unwrap().0.push(t);
                }
            }
            _ => {
                // Out of the pool while the library works on it; whichever
                // thread comes next continues it.
                if let Some(mut t) = take(&pool, w(64)) {
                    for _ in 0..1 + w(8) {
                        t.step();
                    }
                    pool.lock().unwrap().0.push(t);
                }
            }
        }
    }
}

pub fn c17() {
    let clients = 1 + w(3);
    let live = 1 + w(3);
    let mut v = vec![];
    for _ in 0..live {
        let is_static = w(2) == 0;
        let faulty = !is_static && fp(1, 4);
        let m = match clients {
            1 if live == 1 => Mix::WithLarge,
            1 => Mix::Usual,
            _ => Mix::Small,
        };
        v.extend(Trav::new(m, is_static, faulty));
    }
    set_gap_scale(1 << w(9));
    let pool: Pool = Arc::new(Mutex::new(Baton(v)));
    let tasks = (0..clients)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 4 + w(40);
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    client(p.into(), ops)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 24 << 20);
    // What is left runs to its end, in turn.
    if wp(7, 8) {
        let mut rest = std::mem::take(&mut pool.lock().unwrap().0);
        let most: u64 = rest.iter().map(|t| t.n as u64 + 4).max().unwrap_or(0);
        for _ in 0..most {
            for t in rest.iter_mut() {
                t.step();
            }
        }
        for t in &rest {
            // Each step delivers a cell, and no cell twice.
            ensure!(t.done, "endless-iteration", "the iteration does not end: {}", t.what);
        }
        stat("drained");
    }
}
