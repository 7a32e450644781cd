//! C04 .. C08: repeatability, traversal, resumption, adversaries, rebuild.

use crate::ops::*;
use crate::order::Answers;
use crate::spaces::*;
use crate::world::*;
use simcore::cells::{arm_store, STEP};
use simcore::*;
use sqrid::{Dir, Error};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/* --------------------------------------------------------------------- C04 */

fn mk_cursor(sp: &'static dyn Space, world: &Arc<World>, algo: u8, fl: u8, o: u32, dest: u32, hk: &Rc<Hooks>) -> Box<dyn Cursor> {
    let (w1, h1) = (world.clone(), hk.clone());
    match algo {
        0 => sp.bf_iter(
            fl,
            Rc::new(move |c, d| {
                h1.enter("fault:panic-in-go");
                w1.go(c, d)
            }),
            o,
        ),
        1 => sp.astar_iter(
            fl,
            Rc::new(move |c, d| {
                h1.enter("fault:panic-in-go");
                w1.go(c, d)
            }),
            o,
            dest,
        ),
        _ => sp.ucs_iter(
            fl,
            Rc::new(move |c, d| {
                h1.enter("fault:panic-in-go");
                w1.go(c, d).map(|k| (k, w1.cost(c, d)))
            }),
            o,
        ),
    }
}

fn full_sequence(sp: &'static dyn Space, world: &Arc<World>, algo: u8, fl: u8, o: u32, dest: u32, cap: usize) -> Vec<Vec<Item>> {
    let hk = Rc::new(Hooks::plain());
    let r = call(|| {
        let mut cur = mk_cursor(sp, world, algo, fl, o, dest, &hk);
        let mut v = vec![];
        while v.len() < cap {
            match cur.step() {
                Some(x) => v.push(x),
                None => break,
            }
        }
        v
    });
    match r {
        Call::Done(v) => {
            ev("sequence", v.len() as i64, v.iter().flatten().fold(0i64, |h, (c, d)| h.wrapping_mul(37).wrapping_add(*c as i64 * 8 + *d as i64)));
            v
        }
        Call::Injected(_) => unreachable!(),
        Call::Panicked(m) => fail("library-panic", format!("iteration panicked: {m} on {}", world.show())),
    }
}

/// The same iteration, consumed in other ways than item by item.
fn other_ways(sp: &'static dyn Space, world: &Arc<World>, algo: u8, fl: u8, o: u32, dest: u32, seq: &[Vec<Item>]) {
    let hk = Rc::new(Hooks::plain());
    let (skip, how) = (w(4), w(7));
    let what = || format!("{} iteration [{}] on {}: {}", ALGO[algo as usize], ITER_FLAVOR[fl as usize], sp.name(), world.show());
    let r = call(|| {
        let mut cur = mk_cursor(sp, world, algo, fl, o, dest, &hk);
        let mut at = 0usize;
        for _ in 0..skip {
            let k = w(3) as usize;
            let got = cur.skip_to(k);
            at = (at + k + 1).min(seq.len() + 1);
            ensure!(
                got.as_ref() == seq.get(at - 1),
                "order-not-repeatable",
                "nth gave {got:?} where item {} of {seq:?} was due in {}",
                at - 1,
                what()
            );
            if at > seq.len() {
                break;
            }
        }
        (at.min(seq.len()), cur.rest(how))
    });
    match r {
        Call::Done((at, got)) => {
            let want = match how {
                3 => Rest::Count(seq.len() - at),
                4 => Rest::Last(seq[at..].last().cloned()),
                _ => Rest::All(seq[at..].to_vec()),
            };
            ensure!(got == want, "order-not-repeatable", "consumed otherwise ({how}) after {at} items, {want:?} became {got:?} in {}", what());
            stat("checked");
        }
        Call::Injected(_) => {}
        Call::Panicked(m) => fail("library-panic", format!("{m} in {}", what())),
    }
}

fn path_cost(world: &World, q: &Query, a: &Answer) -> Option<u128> {
    a.path.as_ref().map(|p| {
        if q.algo != 2 {
            return p.len() as u128;
        }
        let mut c = q.o;
        let mut sum = 0u128;
        for d in p {
            sum += world.cost(c, *d) as u128;
            c = world.nb(c, *d).unwrap_or(c);
        }
        sum
    })
}

pub fn c04() {
    let sp = pick_space(Mix::Usual);
    let world = Arc::new(gen_world(sp.w(), sp.h(), sp.d()));
    let algo = w(3) as u8;
    let q = gen_query(sp, world.focus, algo);
    let fls = sp.flavors();
    set_gap_scale(1 << w(9));
    let base_of = |fl: u8| -> Answer {
        let mut q2 = q.clone();
        q2.flavor = fl;
        match run_query(sp, &world, &q2, &Hooks::plain()) {
            Call::Done(a) => a,
            Call::Injected(_) => unreachable!(),
            Call::Panicked(m) => fail("library-panic", format!("search panicked: {m} on {}", world.show())),
        }
    };
    let base = base_of(q.flavor);
    note(|| format!("baseline {} [{}] on {}: {:?}; {}", ALGO[algo as usize], FLAVOR[q.flavor as usize], sp.name(), base, world.show()));
    let ifl = *pick(sp.iter_flavors());
    let seq = full_sequence(sp, &world, algo, ifl, q.o, q.dest, 400);
    let base = Arc::new(base);
    let seq = Arc::new(seq);
    let mut tasks: Vec<(u64, Task)> = vec![];
    let clients = 1 + w(4);
    for k in 0..clients {
        let hs = w(1 << 32);
        stat("fault:hash-keys-redrawn");
        let (world, base, seq, q) = (world.clone(), base.clone(), seq.clone(), q.clone());
        let ops = 1 + w(4);
        tasks.push((
            hs,
            Box::new(move || {
                for _ in 0..ops {
                    match w(6) {
                        0 => noise(Mix::Small),
                        1 | 2 => {
                            // Same question, same storage.
                            let mut hk = Hooks::plain();
                            if wp(1, 4) {
                                // ... asked again from inside itself.
                                hk.nest_at = 1 + w(10);
                                let (world, base, q) = (world.clone(), base.clone(), q.clone());
                                *hk.nest.borrow_mut() = Some(Box::new(move || {
                                    if let Call::Done(a) = run_query(sp, &world, &q, &Hooks::plain()) {
                                        ensure!(a == *base, "not-repeatable", "asked again from inside its own callback, {:?} became {:?}: {}", base, a, world.show());
                                        stat("checked");
                                    }
                                }));
                            }
                            match run_query(sp, &world, &q, &hk) {
                                Call::Done(a) => ensure!(
                                    a == *base,
                                    "not-repeatable",
                                    "{} [{}] on {} answered {:?} first and {:?} when repeated by client {k}: {}",
                                    ALGO[q.algo as usize],
                                    FLAVOR[q.flavor as usize],
                                    sp.name(),
                                    base,
                                    a,
                                    world.show()
                                ),
                                Call::Injected(_) => {}
                                Call::Panicked(m) => fail("library-panic", format!("{m} on {}", world.show())),
                            }
                            stat("checked");
                        }
                        3 if seq.len() < 400 && w(2) == 1 => other_ways(sp, &world, q.algo, ifl, q.o, q.dest, &seq),
                        3 => {
                            let s2 = full_sequence(sp, &world, q.algo, ifl, q.o, q.dest, 400);
                            ensure!(
                                s2 == *seq,
                                "order-not-repeatable",
                                "{} iteration [{}] on {} delivered {:?} first and {:?} when repeated: {}",
                                ALGO[q.algo as usize],
                                ITER_FLAVOR[ifl as usize],
                                sp.name(),
                                seq,
                                s2,
                                world.show()
                            );
                            stat("checked");
                        }
                        _ => {
                            // Same question, other storage.
                            let mut q2 = q.clone();
                            q2.flavor = *pick(fls);
                            if let Call::Done(a) = run_query(sp, &world, &q2, &Hooks::plain()) {
                                ensure!(
                                    a.err == base.err && a.path.is_some() == base.path.is_some(),
                                    "flavours-disagree",
                                    "{}: [{}] answers {:?}, [{}] answers {:?} on {}: {}",
                                    ALGO[q.algo as usize],
                                    FLAVOR[q.flavor as usize],
                                    base,
                                    FLAVOR[q2.flavor as usize],
                                    a,
                                    sp.name(),
                                    world.show()
                                );
                                ensure!(
                                    path_cost(&world, &q2, &a) == path_cost(&world, &q, &base),
                                    "flavours-disagree",
                                    "{}: [{}] path {:?} and [{}] path {:?} differ in length or cost on {}: {}",
                                    ALGO[q.algo as usize],
                                    FLAVOR[q.flavor as usize],
                                    base.path,
                                    FLAVOR[q2.flavor as usize],
                                    a.path,
                                    sp.name(),
                                    world.show()
                                );
                                stat("checked");
                            }
                        }
                    }
                }
            }),
        ));
    }
    run_tasks(tasks, 24 << 20);
}

/* --------------------------------------------------------------------- C05 */

/// Monitors one traversal: what the caller offered and what came out.
struct Watch {
    world: World,
    /// Shared with the movement function.
    st: Rc<RefCell<WatchSt>>,
    cur: Option<Box<dyn Cursor>>,
    o: u32,
    delivered: Vec<bool>,
    /// The layer each cell came in.
    came: Vec<u32>,
    hints: Vec<(usize, Option<usize>)>,
    layers: u32,
    dist: Vec<u32>,
    /// Cells at each distance.
    sizes: Vec<u32>,
    is_static: bool,
    hk: Rc<Hooks>,
    panicked: bool,
    done: bool,
    what: String,
}
struct WatchSt {
    world: World,
    offered: Vec<bool>,
    /// Directions of the moves into each cell answered so far.
    into: Vec<u8>,
    /// Every answer, kept where the world may change.
    ans: Option<Answers>,
    teleport: u64,
}

impl Watch {
    fn new(mix: Mix, is_static: bool, faulty: bool) -> Watch {
        let sp = pick_space(mix);
        let world = gen_world(sp.w(), sp.h(), sp.d());
        let n = world.n();
        let o = world.origin();
        let fl = *pick(sp.iter_flavors());
        let mut hk = Hooks::plain();
        // Each cell is expanded at most once, the origin included.
        hk.limit = 8 * (n as u64 + 2);
        if faulty {
            hk.panic_at = 9 + f(80);
        }
        let hk = Rc::new(hk);
        let st = Rc::new(RefCell::new(WatchSt {
            world: world.clone(),
            offered: vec![false; n as usize],
            into: vec![0; n as usize],
            ans: if is_static { None } else { Some(Answers::new(world.w, world.h)) },
            teleport: if is_static { 0 } else { w(3) },
        }));
        let (s2, h2) = (st.clone(), hk.clone());
        let go: GoRc = Rc::new(move |c, d| {
            h2.enter("fault:panic-in-go");
            let mut s = s2.borrow_mut();
            let mut r = s.world.go(c, d);
            if s.teleport == 2 && fp(1, 12) {
                fault_fired("fault:non-neighbour-answer");
                r = Some(f(s.world.n() as u64) as u32);
            }
            if let Some(k) = r {
                s.offered[k as usize] = true;
                s.into[k as usize] |= 1 << d;
            }
            if let Some(a) = s.ans.as_mut() {
                a.record(c, d, r.map(|k| (k, 1)));
            }
            r
        });
        let what = format!("bf_iter [{}] on {} from cell {}; {}", ITER_FLAVOR[fl as usize], sp.name(), o, world.show());
        note(|| what.clone());
        let dist = world.dist(o);
        let mut sizes = vec![];
        for d in dist.iter().filter(|d| **d != u32::MAX) {
            if sizes.len() <= *d as usize {
                sizes.resize(*d as usize + 1, 0);
            }
            sizes[*d as usize] += 1;
        }
        let mut wch = Watch {
            dist,
            sizes,
            delivered: vec![false; n as usize],
            came: vec![0; n as usize],
            hints: vec![],
            world,
            st,
            cur: None,
            o,
            layers: 0,
            is_static,
            hk,
            panicked: false,
            done: false,
            what,
        };
        match call(|| sp.bf_iter(fl, go, o)) {
            Call::Done(c) => wch.cur = Some(c),
            Call::Injected(_) => wch.done = true,
            Call::Panicked(m) => fail("library-panic", format!("creating the traversal panicked: {m}; {}", wch.what)),
        }
        wch
    }

    /// The world changes while the traversal is suspended.
    fn disturb(&mut self) {
        if self.is_static {
            return;
        }
        fault_fired("fault:world-changed-midway");
        let mut s = self.st.borrow_mut();
        let n = s.world.n();
        for _ in 0..1 + f(6) {
            let c = f(n as u64) as usize;
            let bit = 1u8 << f(8);
            let ok = s.world.d || bit & 0x55 != 0;
            let legal = ok && s.world.nb(c as u32, bit.trailing_zeros() as usize).is_some();
            if legal {
                s.world.allow[c] ^= bit;
            }
        }
    }

    fn step(&mut self) {
        if self.done {
            return;
        }
        let Some(cur) = self.cur.as_mut() else { return };
        if self.is_static && self.hints.len() < 64 {
            self.hints.push(cur.hint());
        }
        let r = call(|| cur.step());
        let layer = match r {
            Call::Done(x) => x,
            Call::Injected(_) => {
                self.panicked = true;
                stat("continued-after-panic");
                return;
            }
            Call::Panicked(m) => fail("library-panic", format!("the traversal panicked: {m}; {}", self.what)),
        };
        ev("layer", layer.as_ref().map_or(-1, |l| l.len() as i64), self.layers as i64);
        stat("checked");
        let Some(layer) = layer else {
            self.done = true;
            if self.is_static {
                for c in 0..self.world.n() {
                    ensure!(
                        self.delivered[c as usize] || c == self.o || self.dist[c as usize] == u32::MAX,
                        "cell-never-delivered",
                        "reachable cell {c} (distance {}) was never delivered: {}",
                        self.dist[c as usize],
                        self.what
                    );
                }
            } else if !self.panicked {
                let s = self.st.borrow();
                for c in 0..self.world.n() {
                    ensure!(
                        self.delivered[c as usize] || c == self.o || !s.offered[c as usize],
                        "cell-never-delivered",
                        "cell {c} was offered by the caller and never delivered: {}",
                        self.what
                    );
                }
                // The moves as they were answered make the layers.
                if let Some(a) = s.ans.as_ref().filter(|a| !a.clash) {
                    let dist = a.dist(self.o);
                    for c in 0..self.world.n() {
                        ensure!(
                            c == self.o || !self.delivered[c as usize] || dist[c as usize] == self.came[c as usize],
                            "wrong-layer",
                            "cell {c} came in layer {}, by the moves as they were answered it is at distance {}: {}",
                            self.came[c as usize],
                            dist[c as usize],
                            self.what
                        );
                    }
                    stat("judged-by-answers");
                }
            }
            if !self.panicked {
                for (i, (lo, hi)) in self.hints.iter().enumerate() {
                    let left = self.layers as usize - i;
                    ensure!(
                        *lo <= left && hi.is_none_or(|h| left <= h),
                        "wrong-size-hint",
                        "after {i} layers the traversal promised {lo}..{hi:?} more and delivered {left}: {}",
                        self.what
                    );
                }
            }
            // Finished stays finished.
            let cur = self.cur.as_mut().unwrap();
            if let Call::Done(x) = call(|| cur.step()) {
                ensure!(x.is_none(), "revived", "the traversal delivered {x:?} after it had ended: {}", self.what);
            }
            return;
        };
        self.layers += 1;
        ensure!(!layer.is_empty(), "empty-layer", "an empty layer was delivered: {}", self.what);
        for (c, d) in &layer {
            ensure!(*c != self.o, "origin-delivered", "the origin was delivered in layer {}: {}", self.layers, self.what);
            ensure!(!self.delivered[*c as usize], "delivered-twice", "cell {c} was delivered again in layer {}: {}", self.layers, self.what);
            self.delivered[*c as usize] = true;
            self.came[*c as usize] = self.layers;
            {
                let s = self.st.borrow();
                ensure!(s.offered[*c as usize], "cell-invented", "cell {c} was delivered but never offered by the caller: {}", self.what);
                // Some offered move into c in the opposite direction.
                let back = (*d + 4) % 8;
                ensure!(
                    s.into[*c as usize] >> back & 1 == 1,
                    "wrong-back-direction",
                    "cell {c} came with direction {d}, but no offered move into it had direction {back}: {}",
                    self.what
                );
            }
            if self.is_static && !self.panicked {
                ensure!(
                    self.dist[*c as usize] == self.layers,
                    "wrong-layer",
                    "cell {c} at distance {} was delivered in layer {}: {}",
                    self.dist[*c as usize],
                    self.layers,
                    self.what
                );
                let prev = nb(self.world.w, self.world.h, *c, *d);
                let ok = prev.is_some_and(|p| {
                    self.dist[p as usize] + 1 == self.layers && self.world.mv(p, (*d + 4) % 8) == Some(*c)
                });
                ensure!(
                    ok,
                    "wrong-back-direction",
                    "cell {c} in layer {} came with direction {d}, which does not lead back to an allowed predecessor: {}",
                    self.layers,
                    self.what
                );
            }
        }
        if self.is_static && !self.panicked && layer.len() != self.sizes.get(self.layers as usize).map_or(0, |s| *s as usize) {
            for c in 0..self.world.n() {
                ensure!(
                    self.dist[c as usize] != self.layers || self.delivered[c as usize],
                    "incomplete-layer",
                    "cell {c} at distance {} is missing from that layer: {}",
                    self.layers,
                    self.what
                );
            }
        }
    }
}

fn c05_client(clients: u64) {
    let live = 1 + w(3);
    let mut v: Vec<Watch> = vec![];
    for _ in 0..live {
        let st = w(2) == 0;
        let faulty = !st && fp(1, 4);
        let m = match clients {
            1 if live == 1 => Mix::WithLarge,
            1 => Mix::Usual,
            _ => Mix::Small,
        };
        v.push(Watch::new(m, st, faulty));
    }
    let cap = 40 + w(200);
    let mut i = 0;
    while v.iter().any(|x| !x.done) && i < cap {
        i += 1;
        yp();
        let k = w(v.len() as u64) as usize;
        match w(12) {
            11 => noise(Mix::Small),
            10 => v[k].disturb(),
            _ => v[k].step(),
        }
    }
    // Drain what is left, in turn.
    if wp(7, 8) {
        let mut guard = 0u64;
        while v.iter().any(|x| !x.done) && guard < 400_000 {
            guard += 1;
            for x in v.iter_mut() {
                x.step();
            }
        }
        stat("drained");
        for x in &v {
            // A layer is never empty, so there are at most n of them.
            ensure!(x.done || guard < 400_000, "endless-traversal", "the traversal does not end: {}", x.what);
            if x.done {
                stat_n("callbacks", x.hk.calls.get());
            }
        }
    }
}

pub fn c05() {
    let clients = 1 + w(3);
    set_gap_scale(1 << w(9));
    let tasks = (0..clients)
        .map(|_| {
            let hs = w(1 << 32);
            (hs, Box::new(move || c05_client(clients)) as Task)
        })
        .collect();
    run_tasks(tasks, 24 << 20);
}

/* --------------------------------------------------------------------- C06 */

struct Lineage {
    cur: Box<dyn Cursor>,
    hk: Rc<Hooks>,
    armed: Rc<Cell<u64>>,
    pos: usize,
    subject: usize,
    finished: bool,
}

struct Subject {
    sp: &'static dyn Space,
    world: Arc<World>,
    algo: u8,
    fl: u8,
    o: u32,
    dest: u32,
    seq: Vec<Vec<Item>>,
    complete: bool,
}

impl Subject {
    fn what(&self) -> String {
        format!(
            "{} iteration [{}] on {} from {} (to {}); {}",
            ALGO[self.algo as usize],
            ITER_FLAVOR[self.fl as usize],
            self.sp.name(),
            self.o,
            self.dest,
            self.world.show()
        )
    }
}

/// All lineages live in one pool; whoever holds the baton works on it.
struct Pool {
    subjects: Vec<Subject>,
    live: Vec<Lineage>,
}

const SEQ_CAP: usize = 160;

fn c06_start(subjects: &[Subject], k: usize) -> Option<Lineage> {
    let s = &subjects[k];
    let hk = Rc::new(Hooks::plain());
    let armed = Rc::new(Cell::new(0u64));
    let (w1, h1, a1) = (s.world.clone(), hk.clone(), armed.clone());
    let touch = move || {
        h1.enter("fault:panic-in-go");
        let n = a1.get();
        if n > 0 {
            a1.set(n - 1);
            if n == 1 {
                inject_panic("fault:panic-in-go");
            }
        }
    };
    let touch = Rc::new(touch);
    let r = call(|| match s.algo {
        0 => {
            let t = touch.clone();
            s.sp.bf_iter(
                s.fl,
                Rc::new(move |c, d| {
                    t();
                    w1.go(c, d)
                }),
                s.o,
            )
        }
        1 => {
            let t = touch.clone();
            s.sp.astar_iter(
                s.fl,
                Rc::new(move |c, d| {
                    t();
                    w1.go(c, d)
                }),
                s.o,
                s.dest,
            )
        }
        _ => {
            let t = touch.clone();
            s.sp.ucs_iter(
                s.fl,
                Rc::new(move |c, d| {
                    t();
                    w1.go(c, d).map(|k| (k, w1.cost(c, d)))
                }),
                s.o,
            )
        }
    });
    match r {
        Call::Done(cur) => Some(Lineage {
            cur,
            hk,
            armed,
            pos: 0,
            subject: k,
            finished: false,
        }),
        Call::Injected(_) => None,
        Call::Panicked(m) => fail("library-panic", format!("{m}: {}", s.what())),
    }
}

fn c06_advance(pool: &Arc<Mutex<Baton<Pool>>>, id: usize) {
    // Take the lineage out of the pool while the library works on it, so that
    // other clients can use the pool meanwhile.
    let mut l = {
        let mut p = pool.lock().unwrap();
        if p.0.live.is_empty() {
            return;
        }
        let k = id % p.0.live.len();
        p.0.live.swap_remove(k)
    };
    if fp(1, 10) {
        l.armed.set(1 + f(12));
    }
    let r = call(|| l.cur.step());
    let hit_fault = matches!(r, Call::Injected(_));
    l.armed.set(0);
    let mut p = pool.lock().unwrap();
    let s = &p.0.subjects[l.subject];
    match r {
        Call::Done(x) => {
            stat("checked");
            stat_n("callbacks", l.hk.calls.replace(0));
            ev("advance", l.subject as i64, l.pos as i64);
            let want = s.seq.get(l.pos);
            if want.is_none() && !s.complete {
                // Past the recorded prefix: nothing to compare with.
                return;
            }
            ensure!(
                x.as_ref() == want,
                "resumed-differently",
                "after {} items a copy delivered {:?}, an uninterrupted iteration delivers {:?}: {}",
                l.pos,
                x,
                want,
                s.what()
            );
            l.pos += 1;
            l.finished = x.is_none();
        }
        Call::Injected(_) => {}
        Call::Panicked(m) => {
            let t = s.what();
            drop(p);
            fail("library-panic", format!("{m}: {t}"))
        }
    }
    if hit_fault {
        // The unwound one is dropped; its relatives must not notice.
        stat("unwound-lineage");
        let dead = l;
        drop(p);
        drop(dead);
        return;
    }
    p.0.live.push(l);
}

fn c06_client(pool: Arc<Mutex<Baton<Pool>>>, ops: u64) {
    for _ in 0..ops {
        yp();
        match w(10) {
            0..=5 => {
                let k = w(64) as usize;
                c06_advance(&pool, k);
            }
            6 | 7 => {
                // Snapshot.
                let mut p = pool.lock().unwrap();
                if p.0.live.is_empty() || p.0.live.len() > 12 {
                    continue;
                }
                let k = w(p.0.live.len() as u64) as usize;
                let l = &p.0.live[k];
                let copy = Lineage {
                    cur: l.cur.dup(),
                    hk: l.hk.clone(),
                    armed: l.armed.clone(),
                    pos: l.pos,
                    subject: l.subject,
                    finished: l.finished,
                };
                stat("snapshot");
                if l.pos > 0 && !l.finished {
                    stat("snapshot-in-mid-search");
                }
                ev("snapshot", k as i64, l.pos as i64);
                p.0.live.push(copy);
            }
            8 => {
                // Crash of one lineage.
                let mut p = pool.lock().unwrap();
                if p.0.live.len() > 1 {
                    let k = w(p.0.live.len() as u64) as usize;
                    let dead = p.0.live.swap_remove(k);
                    fault_fired("fault:lineage-dropped");
                    drop(p);
                    drop(dead);
                }
            }
            _ => {
                if w(3) == 2 {
                    noise(Mix::Small);
                } else {
                    let p = pool.lock().unwrap();
                    let k = w(p.0.subjects.len() as u64) as usize;
                    // Cheap handles only: start outside the lock.
                    let subj = Subject {
                        sp: p.0.subjects[k].sp,
                        world: p.0.subjects[k].world.clone(),
                        algo: p.0.subjects[k].algo,
                        fl: p.0.subjects[k].fl,
                        o: p.0.subjects[k].o,
                        dest: p.0.subjects[k].dest,
                        seq: vec![],
                        complete: false,
                    };
                    drop(p);
                    if let Some(mut l) = c06_start(&[subj], 0) {
                        l.subject = k;
                        pool.lock().unwrap().0.live.push(l);
                    }
                }
            }
        }
    }
}

pub fn c06() {
    let mut subjects = vec![];
    for _ in 0..1 + w(2) {
        let sp = pick_space(if wp(1, 64) { Mix::WithLarge } else if wp(1, 4) { Mix::Usual } else { Mix::Small });
        let world = Arc::new(gen_world(sp.w(), sp.h(), sp.d()));
        let n = world.n() as u64;
        let (algo, fl) = (w(3) as u8, *pick(sp.iter_flavors()));
        let (o, dest) = (world.origin(), w(n) as u32);
        let seq = full_sequence(sp, &world, algo, fl, o, dest, SEQ_CAP);
        let complete = seq.len() < SEQ_CAP;
        let s = Subject {
            sp,
            world,
            algo,
            fl,
            o,
            dest,
            seq,
            complete,
        };
        note(|| s.what());
        subjects.push(s);
    }
    set_gap_scale(1 << w(9));
    let mut live = vec![];
    for k in 0..subjects.len() {
        live.extend(c06_start(&subjects, k));
    }
    let pool = Arc::new(Mutex::new(Baton(Pool { subjects, live })));
    let clients = 1 + w(3);
    let tasks = (0..clients)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 10 + w(60);
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    c06_client(p.into(), ops)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 24 << 20);
    // Finally every survivor runs to its end.
    if wp(3, 4) {
        for _ in 0..200 {
            if pool.lock().unwrap().0.live.iter().all(|l| l.finished) {
                break;
            }
            let n = pool.lock().unwrap().0.live.len();
            for k in 0..n {
                c06_advance(&pool, k);
            }
        }
    }
}

/* --------------------------------------------------------------------- C07 */

struct Adversary {
    n: u32,
    w: u32,
    h: u32,
    world: World,
    mode: u64,
    offered: RefCell<Vec<bool>>,
    o: u32,
    hk: Hooks,
    algo: u8,
    small_costs: bool,
}

impl Adversary {
    fn answer(&self, c: u32, d: usize) -> Option<u32> {
        self.hk.enter("fault:panic-in-go");
        ensure!(
            c < self.n && (c == self.o || self.offered.borrow()[c as usize]),
            "asked-about-stranger",
            "the movement function was asked about cell {c}, which is neither the origin nor anything it had offered"
        );
        let r = match self.mode {
            0 => self.world.go(c, d),
            1 => {
                // Changes its mind.
                if fp(1, 5) {
                    fault_fired("fault:inconsistent-answer");
                    self.world.nb(c, d)
                } else {
                    self.world.go(c, d)
                }
            }
            2 => {
                // Any cell at all.
                if f(3) > 0 {
                    fault_fired("fault:non-neighbour-answer");
                    Some(f(self.n as u64) as u32)
                } else {
                    None
                }
            }
            3 => {
                // Neighbours of some other direction.
                fault_fired("fault:wrong-neighbour-answer");
                self.world.nb(c, f(8) as usize)
            }
            _ => {
                // Torus: wraps around the edges.
                let (x, y) = ((c % self.w) as i64, (c / self.w) as i64);
                let (dx, dy) = STEP[d];
                if self.world.nb(c, d).is_none() {
                    fault_fired("fault:non-neighbour-answer");
                }
                let (nx, ny) = ((x + dx).rem_euclid(self.w as i64), (y + dy).rem_euclid(self.h as i64));
                Some((ny * self.w as i64 + nx) as u32)
            }
        };
        if let Some(k) = r {
            self.offered.borrow_mut()[k as usize] = true;
        }
        r
    }
    fn cost(&self) -> usize {
        if self.small_costs {
            f(4) as usize
        } else {
            match f(8) {
                0..=3 => f(4) as usize,
                4 => usize::MAX,
                5 => usize::MAX - f(3) as usize,
                6 => usize::MAX / 2 + f(3) as usize,
                _ => 1 << (30 + f(34)),
            }
        }
    }
}

fn c07_one() {
    let algo = w(3) as u8;
    // Small grids: the bounds below are then small numbers.
    let sp = loop {
        let s = pick_space(Mix::Small);
        if s.w() * s.h() <= 39 {
            break s;
        }
    };
    let world = gen_world(sp.w(), sp.h(), sp.d());
    let n = world.n() as u64;
    let o = world.origin();
    let dest = w(n) as u32;
    let dirs = if sp.d() { 8 } else { 4 };
    let mut hk = Hooks::plain();
    let small_costs = fp(1, 2);
    // BFS: each cell expanded once, the goal test once per cell. A*/UCS: each
    // expansion strictly lowered one cell's cost.
    hk.limit = match algo {
        0 => 2 * (dirs * (n + 2) + n),
        1 => dirs * (n * n + 2),
        _ if small_costs => dirs * (n * (3 * n + 1) + 2),
        _ => 2_000_000,
    };
    if fp(1, 4) {
        hk.panic_at = 1 + f(60);
    }
    let panic_at = hk.panic_at;
    let fl = *pick(sp.flavors());
    let adv = Adversary {
        n: n as u32,
        w: sp.w(),
        h: sp.h(),
        world,
        // (A loop in a space of billions of cells is only noticed after as
        // many steps, so answers that can cause one are kept to small ones.)
        mode: f(5),
        offered: RefCell::new(vec![false; n as usize]),
        o,
        hk,
        algo,
        small_costs,
    };
    let what = format!(
        "{} [{}] on {} from {o} to {dest}, caller mode {}; {}",
        ALGO[algo as usize],
        FLAVOR[fl as usize],
        sp.name(),
        adv.mode,
        adv.world.show()
    );
    note(|| what.clone());
    let fickle_goal = f(3);
    let asked = Rc::new(RefCell::new(None));
    let go = |c: u32, d: usize| adv.answer(c, d);
    let goc = |c: u32, d: usize| adv.answer(c, d).map(|k| (k, adv.cost()));
    let found = |c: u32| {
        adv.hk.enter("fault:panic-in-goal-test");
        ensure!(
            c < adv.n && (c == o || adv.offered.borrow()[c as usize]),
            "asked-about-stranger",
            "the goal test was asked about cell {c}, which was never offered: {what}"
        );
        let r = if fickle_goal == 2 { fp(1, 6) } else { c == dest };
        if r {
            *asked.borrow_mut() = Some(c);
        }
        r
    };
    if f(6) == 5 && fl == 7 {
        arm_store(1 + f(60), 0);
    }
    let before = last_fault();
    let r = match algo {
        0 => call(|| sp.bfs(fl, &go, o, &found)),
        1 => call(|| sp.astar(fl, &go, o, dest).map(|p| (dest, p))),
        _ => call(|| sp.ucs(fl, &goc, o, dest).map(|p| (dest, p))),
    };
    arm_store(0, 0);
    stat("checked");
    stat_n("callbacks", adv.hk.calls.get());
    match r {
        Call::Injected(k) => {
            ev("panic-surfaced", k as i64, 0);
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {what}", last_fault());
            stat("panic-surfaced");
        }
        Call::Panicked(m) => fail("library-panic", format!("the library panicked on its own: {m}; {what}")),
        Call::Done(res) => {
            ev("answer", res.as_ref().map_or(-1, |x| x.1.len() as i64), 0);
            ensure!(
                last_fault() == before,
                "panic-swallowed",
                "a panic raised in the caller's function (call {panic_at}) never reached the caller: {what}"
            );
            match res {
                Ok((d, path)) => {
                    stat("path-found");
                    if adv.algo == 0 {
                        ensure!(*asked.borrow() == Some(d), "not-a-goal", "reported {d}, which the goal test did not accept: {what}");
                    }
                    let mut c = o;
                    for (i, step) in path.iter().enumerate() {
                        match adv.world.nb(c, *step as usize) {
                            Some(k) => c = k,
                            None => fail("path-leaves-grid", format!("step {i} of {path:?} leaves the grid: {what}")),
                        }
                        ensure!(
                            c == o || adv.offered.borrow()[c as usize],
                            "path-through-stranger",
                            "path {path:?} passes cell {c}, which was never offered: {what}"
                        );
                    }
                    ensure!(c == d, "wrong-end", "path {path:?} ends at {c}, not at {d}: {what}");
                }
                Err(e) => {
                    stat("error-reported");
                    ensure!(
                        matches!(e, Error::DestinationUnreachable | Error::InvalidMovement | Error::Loop),
                        "undocumented-error",
                        "{e:?}: {what}"
                    );
                    if e == Error::DestinationUnreachable && algo != 0 {
                        ensure!(
                            adv.mode == 1 || algo == 2 || !adv.offered.borrow()[dest as usize] || dest == o,
                            "missed-destination",
                            "the destination was offered by the caller but reported unreachable: {what}"
                        );
                    }
                }
            }
        }
    }
}

/// Adversarial use of the iterators: changing answers, panics, continuing.
fn c07_iter() {
    let algo = w(3) as u8;
    let sp = loop {
        let s = pick_space(Mix::Small);
        if s.w() * s.h() <= 39 {
            break s;
        }
    };
    let world = gen_world(sp.w(), sp.h(), sp.d());
    let n = world.n() as u64;
    let o = world.origin();
    let dest = w(n) as u32;
    let fl = *pick(sp.iter_flavors());
    let dirs = if sp.d() { 8 } else { 4 };
    let mut hk = Hooks::plain();
    hk.limit = match algo {
        0 => 2 * dirs * (n + 2),
        1 => dirs * (n * n + 2),
        _ => dirs * (n * (3 * n + 1) + 2),
    };
    let hk = Rc::new(hk);
    let offered = Rc::new(RefCell::new(vec![false; n as usize]));
    let what = format!("{} iteration [{}] on {} from {o}; {}", ALGO[algo as usize], ITER_FLAVOR[fl as usize], sp.name(), world.show());
    note(|| what.clone());
    let mode = f(3);
    let world = Rc::new(world);
    let ans = {
        let (hk, offered, world, what) = (hk.clone(), offered.clone(), world.clone(), what.clone());
        move |c: u32, d: usize| -> Option<u32> {
            hk.enter("fault:panic-in-go");
            ensure!(c == o || offered.borrow()[c as usize], "asked-about-stranger", "asked about cell {c}, never offered: {what}");
            if fp(1, 40) {
                inject_panic("fault:panic-in-go");
            }
            let r = match mode {
                0 => world.go(c, d),
                1 => {
                    fault_fired("fault:non-neighbour-answer");
                    Some(f(n) as u32)
                }
                _ => {
                    if fp(1, 4) {
                        fault_fired("fault:inconsistent-answer");
                        None
                    } else {
                        world.go(c, d)
                    }
                }
            };
            if let Some(k) = r {
                offered.borrow_mut()[k as usize] = true;
            }
            r
        }
    };
    let a2 = ans.clone();
    let made = call(|| match algo {
        0 => sp.bf_iter(fl, Rc::new(ans), o),
        1 => sp.astar_iter(fl, Rc::new(ans), o, dest),
        _ => sp.ucs_iter(fl, Rc::new(move |c, d| a2(c, d).map(|k| (k, f(4) as usize))), o),
    });
    let mut cur = match made {
        Call::Done(c) => c,
        Call::Injected(_) => return,
        Call::Panicked(m) => fail("library-panic", format!("{m}: {what}")),
    };
    let mut n_items = 0u64;
    for _ in 0..3000 {
        stat("checked");
        match call(|| cur.step()) {
            Call::Done(None) => break,
            Call::Done(Some(v)) => {
                n_items += v.len() as u64;
                for (c, _) in v {
                    ensure!(c == o || offered.borrow()[c as usize], "cell-invented", "delivered cell {c}, never offered: {what}");
                }
            }
            Call::Injected(k) => {
                ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {what}", last_fault());
                stat("continued-after-panic");
            }
            Call::Panicked(m) => fail("library-panic", format!("{m}: {what}")),
        }
    }
    ev("items", n_items as i64, 0);
}

pub fn c07() {
    let clients = 1 + w(3);
    set_gap_scale(1 << w(9));
    let tasks = (0..clients)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 1 + w(5);
            (
                hs,
                Box::new(move || {
                    for _ in 0..ops {
                        if w(3) == 2 {
                            c07_iter()
                        } else {
                            c07_one()
                        }
                    }
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 24 << 20);
}

/* --------------------------------------------------------------------- C08 */

#[derive(Debug, PartialEq, Clone)]
enum Walk {
    Path(Vec<usize>),
    Unreachable,
    Invalid,
    Loop,
}

fn reference_walk(ww: u32, hh: u32, map: &[Option<usize>], o: u32, dest: u32) -> Walk {
    if map[dest as usize].is_none() {
        return Walk::Unreachable;
    }
    let mut seen = vec![false; map.len()];
    let mut path = vec![];
    let mut c = dest;
    while c != o {
        if seen[c as usize] {
            return Walk::Loop;
        }
        seen[c as usize] = true;
        let Some(d) = map[c as usize] else { return Walk::Invalid };
        path.push((d + 4) % 8);
        match nb(ww, hh, c, d) {
            Some(k) => c = k,
            None => return Walk::Invalid,
        }
    }
    path.reverse();
    Walk::Path(path)
}

fn judge_rebuild(sp: &dyn Space, map: &[Option<usize>], o: u32, dest: u32, r: &Result<Vec<Dir>, Error>, how: &str) {
    stat("checked");
    let want = reference_walk(sp.w(), sp.h(), map, o, dest);
    let got = match r {
        Ok(p) => Walk::Path(p.iter().map(|d| *d as usize).collect()),
        Err(Error::DestinationUnreachable) => Walk::Unreachable,
        Err(Error::InvalidMovement) => Walk::Invalid,
        Err(Error::Loop) => Walk::Loop,
        Err(e) => fail("undocumented-error", format!("{e:?} from {how} on {}", sp.name())),
    };
    match &want {
        Walk::Path(p) => {
            stat("walk:path");
            if p.len() as u64 > sp.w() as u64 * sp.w() as u64 {
                stat("walk:longer-than-width-squared");
            }
        }
        Walk::Unreachable => stat("walk:no-entry"),
        Walk::Invalid => stat("walk:invalid"),
        Walk::Loop => {
            stat("walk:loop");
            // How long is the circle?
            let n = (sp.w() * sp.h()) as usize;
            if n > 1000 {
                let next = |c: u32| nb(sp.w(), sp.h(), c, map[c as usize].unwrap()).unwrap();
                let at = (0..n).fold(dest, |c, _| next(c));
                let (mut c, mut len) = (next(at), 1u32);
                while c != at {
                    c = next(c);
                    len += 1;
                }
                if len > 1000 {
                    stat("circle-over-1000");
                }
                if len > 65536 {
                    stat("circle-over-65536");
                }
            }
        }
    }
    ev("rebuild", map.iter().flatten().count() as i64, dest as i64);
    let short = |x: &Walk| match x {
        Walk::Path(p) if p.len() > 60 => format!("path of {} moves", p.len()),
        x => format!("{x:?}"),
    };
    ensure!(
        got == want,
        match (&got, &want) {
            (Walk::Path(_), Walk::Path(_)) => "wrong-path",
            (Walk::Path(_), _) => "path-from-nothing",
            (_, Walk::Path(_)) => "path-refused",
            _ => "wrong-error",
        },
        "rebuilding from {dest} to origin {o} on {} ({how}) gave {}, following the map gives {}; map {:?}",
        sp.name(),
        short(&got),
        short(&want),
        if map.len() <= 80 { map } else { &[] }
    );
}

fn c08_one(m: Mix) {
    if m == Mix::WithLarge && w(400) == 399 {
        return crate::vast::c08_vast();
    }
    // Rebuilding is cheap.
    let sp = if m == Mix::WithLarge && w(60) == 59 { *pick(LARGE) } else { pick_space(m) };
    let (ww, hh) = (sp.w(), sp.h());
    let n = (ww * hh) as usize;
    let mut o = w(n as u64) as u32;
    let mut dest = w(n as u64) as u32;
    let mut map: Vec<Option<usize>>;
    let how: &str;
    let small = n <= 72;
    match w(6) {
        5 if ww >= 2 && hh >= 2 => {
            // A circle through a whole rectangle, with a way into it.
            how = "circle with a way in";
            let size = |most: u32| -> u32 {
                let least = if w(2) == 0 { 2 } else { most.saturating_sub(3).max(2) };
                least + w((most - least + 1) as u64) as u32
            };
            let (rw, rh) = (size(ww), size(hh) & !1);
            let (x0, y0) = (w((ww - rw + 1) as u64) as u32, w((hh - rh + 1) as u64) as u32);
            let mut round = vec![];
            for y in 0..rh {
                for k in 1..rw {
                    round.push((if y % 2 == 0 { k } else { rw - k }, y));
                }
            }
            round.extend((0..rh).rev().map(|y| (0, y)));
            let mut round: Vec<u32> = round.into_iter().map(|(x, y)| (y + y0) * ww + x + x0).collect();
            if w(2) == 1 {
                round.reverse();
            }
            let mut t: Vec<Option<usize>> = vec![None; n];
            let mut next = round[0];
            for c in round.iter().rev() {
                t[*c as usize] = (0..8).find(|d| nb(ww, hh, *c, *d) == Some(next));
                next = *c;
            }
            // The ways in: straight from the sides, slantwise otherwise.
            for c in 0..n as u32 {
                let (x, y) = (c % ww, c / ww);
                if t[c as usize].is_none() {
                    t[c as usize] = Some(match (x < x0, x >= x0 + rw, y < y0) {
                        (true, _, _) => 2,
                        (_, true, _) => 6,
                        (_, _, true) => 4,
                        _ => 0,
                    });
                }
            }
            let inside = |c: u32| (x0..x0 + rw).contains(&(c % ww)) && (y0..y0 + rh).contains(&(c / ww));
            let off: Vec<u32> = (0..n as u32).filter(|c| !inside(*c)).collect();
            if !off.is_empty() && wp(7, 8) {
                o = off[w(off.len() as u64) as usize];
            }
            if wp(1, 2) {
                dest = round[w(round.len() as u64) as usize];
            }
            map = t;
        }
        0 | 1 => {
            // A came-from tree as a search would leave it ...
            let world = gen_world(ww, hh, true);
            let mut t: Vec<Option<usize>> = vec![None; n];
            let mut order = vec![o];
            t[o as usize] = Some(0);
            let mut i = 0;
            while i < order.len() {
                let c = order[i];
                i += 1;
                for d in 0..8 {
                    if let Some(k) = world.mv(c, d) {
                        if t[k as usize].is_none() {
                            t[k as usize] = Some((d + 4) % 8);
                            order.push(k);
                        }
                    }
                }
            }
            how = "search tree with damage";
            if wp(3, 4) {
                dest = order[w(order.len() as u64) as usize];
            }
            // ... cut short at some point ...
            if fp(1, 3) {
                fault_fired("fault:map-truncated");
                let keep = f(order.len() as u64) as usize;
                for c in &order[keep..] {
                    t[*c as usize] = None;
                }
            }
            map = t;
        }
        2 => {
            // The longest possible corridor.
            how = "serpentine";
            map = vec![None; n];
            let by_col = w(2) == 1;
            let (l, k) = if by_col { (hh, ww) } else { (ww, hh) };
            let cell = |i: u32| -> u32 {
                let (r, c) = (i / l, i % l);
                let c = if r % 2 == 0 { c } else { l - 1 - c };
                if by_col {
                    c * ww + r
                } else {
                    r * ww + c
                }
            };
            for i in 1..l * k {
                let (a, b) = (cell(i - 1), cell(i));
                map[b as usize] = (0..8).find(|d| nb(ww, hh, b, *d) == Some(a));
            }
            if wp(3, 4) {
                dest = cell(l * k - 1);
            }
        }
        3 => {
            how = "random directions";
            let seed = if small { 0 } else { w(1 << 20) };
            map = (0..n)
                .map(|i| {
                    let v = if small { w(10) } else { mix(seed ^ i as u64) % 10 };
                    if v == 9 {
                        None
                    } else {
                        Some((v % 8) as usize)
                    }
                })
                .collect();
        }
        _ => {
            how = "map recorded by a store that loses writes";
            if small {
                let world = gen_world(ww, hh, sp.d());
                let n = world.n();
                let goc = |c: u32, d: usize| {
                    yp();
                    world.go(c, d).filter(|k| *k < n).map(|k| (k, world.cost(c, d) % 1000))
                };
                let algo = w(3) as u8;
                let lose = f(24);
                let r = call(|| sp.lossy(algo, &goc, o, dest, lose));
                match r {
                    Call::Done(Some((content, r))) => judge_rebuild(sp, &content, o, dest, &r, how),
                    Call::Done(None) => {}
                    Call::Injected(_) => {}
                    Call::Panicked(m) => fail("library-panic", format!("{m} with a store that loses writes on {}", sp.name())),
                }
            }
            return;
        }
    }
    // Bit rot.
    if fp(1, 2) {
        for _ in 0..1 + f(3) {
            fault_fired("fault:map-entry-corrupted");
            // Preferably on the way.
            let mut c = dest;
            for _ in 0..f(12) {
                match map[c as usize].and_then(|d| nb(ww, hh, c, d)) {
                    Some(k) if k != o => c = k,
                    _ => break,
                }
            }
            map[c as usize] = match f(4) {
                0 => None,
                _ => Some(f(8) as usize),
            };
        }
    }
    let fl = *pick(sp.iter_flavors());
    note(|| format!("rebuild [{}] on {} from {dest} to {o}: {how}; {:?}", ITER_FLAVOR[fl as usize], sp.name(), if small { &map[..] } else { &[] }));
    if w(4) == 0 {
        c08_far(sp, fl, &map, dest);
    }
    let fuse = if fl == 4 && fp(1, 6) { map.iter().flatten().count() as u64 + 1 + f(8) } else { 0 };
    if fuse > 0 {
        arm_store(fuse, 0);
    }
    let r = call(|| sp.rebuild(fl, &map, o, dest));
    arm_store(0, 0);
    match r {
        Call::Done(r) => judge_rebuild(sp, &map, o, dest, &r, how),
        Call::Injected(k) => {
            ensure!(fuse > 0 && k == last_fault(), "wrong-payload", "panic #{k} surfaced from a rebuild on {}", sp.name());
            stat("panic-surfaced");
        }
        Call::Panicked(m) => fail("library-panic", format!("rebuilding panicked: {m} on {} ({how}); map {:?}", sp.name(), if n <= 80 { &map[..] } else { &[] })),
    }
}

/// Origin or destination in a far corner of a machine-integer position type.
fn c08_far(sp: &dyn Space, fl: u8, map: &[Option<usize>], c: u32) {
    let (from_far, corner) = (w(2) == 1, w(2) == 1);
    // With no entry for the far destination nothing is reachable; a walk never
    // gets to a far origin.
    let want = if from_far {
        match reference_walk(sp.w(), sp.h(), map, u32::MAX, c) {
            Walk::Path(_) => unreachable!(),
            x => x,
        }
    } else {
        Walk::Unreachable
    };
    let r = match call(|| sp.rebuild_far(fl, map, from_far, corner, c)) {
        Call::Done(None) => return,
        Call::Done(Some(r)) => r,
        Call::Injected(k) => fail("wrong-payload", format!("panic #{k} surfaced from a rebuild")),
        Call::Panicked(m) => fail("library-panic", format!("rebuilding between far-apart positions panicked: {m} on {}", sp.name())),
    };
    stat("walk:far-apart");
    let ok = match (&want, &r) {
        (Walk::Unreachable, Err(Error::DestinationUnreachable)) => true,
        (Walk::Invalid, Err(Error::InvalidMovement)) => true,
        (Walk::Loop, Err(Error::Loop)) => true,
        _ => false,
    };
    ensure!(ok, "wrong-error", "rebuilding between far-apart positions on {} gave {r:?}, following the map gives {want:?}", sp.name());
}

pub fn c08() {
    let clients = 1 + w(3);
    set_gap_scale(1 << w(9));
    let tasks = (0..clients)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 1 + w(6);
            (
                hs,
                Box::new(move || {
                    for _ in 0..ops {
                        c08_one(if clients == 1 { Mix::WithLarge } else { Mix::Usual });
                        if w(8) == 7 {
                            noise(Mix::Small);
                        }
                    }
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 24 << 20);
}
