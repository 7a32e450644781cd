//! Operations clients perform, and the oracles that judge them.

use crate::spaces::*;
use crate::world::*;
use simcore::*;
use sqrid::{Dir, Error};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const ALGO: [&str; 3] = ["bfs", "astar", "ucs"];

/// How often large shapes are used in a scenario.
#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    Small,
    Usual,
    WithLarge,
}

pub fn pick_space(m: Mix) -> &'static dyn Space {
    let k = w(128);
    if m == Mix::WithLarge && k == 127 && w(3) == 2 {
        stat("large-grid");
        *pick(LARGE)
    } else if m != Mix::Small && k == 126 {
        stat("wide-grid");
        *pick(WIDE)
    } else if m != Mix::Small && k >= 112 {
        stat("medium-grid");
        *pick(MEDIUM)
    } else {
        *pick(SMALL)
    }
}

/// What may happen inside the caller's functions of one library call.
pub struct Hooks {
    pub calls: Cell<u64>,
    pub limit: u64,
    pub panic_at: u64,
    pub nest_at: u64,
    pub nest: RefCell<Option<Box<dyn FnOnce()>>>,
    pub stall_at: u64,
}

impl Hooks {
    pub fn plain() -> Hooks {
        Hooks {
            calls: Cell::new(0),
            limit: u64::MAX,
            panic_at: 0,
            nest_at: 0,
            nest: RefCell::new(None),
            stall_at: 0,
        }
    }
    /// One call into the caller's code.
    pub fn enter(&self, kind: &'static str) {
        yp();
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.limit {
            fail("unbounded-work", format!("more than {} calls to the caller's functions", self.limit));
        }
        if n == self.stall_at {
            fault_fired("fault:stalled-callback");
            sleep(40);
        }
        if n == self.nest_at {
            let b = self.nest.borrow_mut().take();
            if let Some(b) = b {
                stat("nested-search");
                b();
            }
        }
        if n == self.panic_at {
            inject_panic(kind);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Query {
    pub algo: u8,
    pub flavor: u8,
    pub o: u32,
    pub dest: u32,
    pub goals: Vec<bool>,
}

pub fn gen_goals(n: u32, o: u32) -> Vec<bool> {
    let mut g = vec![false; n as usize];
    match w(8) {
        0..=3 => g[w(n as u64) as usize] = true,
        4 => {
            for _ in 0..1 + w(5) {
                g[w(n as u64) as usize] = true;
            }
        }
        5 => {}
        6 => g[o as usize] = true,
        _ => {
            let s = w(1 << 16);
            for (i, x) in g.iter_mut().enumerate() {
                *x = mix(s ^ i as u64) % 3 == 0;
            }
        }
    }
    g
}

pub fn gen_query(sp: &dyn Space, focus: Option<u32>, algo: u8) -> Query {
    let n = sp.w() * sp.h();
    let flavor = *pick(sp.flavors());
    // Corners and far ends are the interesting places on elongated grids.
    let place = |k: u64| -> u32 {
        match k {
            0 => 0,
            1 => n - 1,
            _ => w(n as u64) as u32,
        }
    };
    let o = match focus {
        Some(c) if w(3) > 0 => c,
        _ => place(w(6)),
    };
    let dest = place(5 - w(6));
    let goals = if algo == 0 { gen_goals(n, o) } else { vec![] };
    Query {
        algo,
        flavor,
        o,
        dest,
        goals,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Answer {
    pub dest: Option<u32>,
    pub path: Option<Vec<usize>>,
    pub err: Option<Error>,
}

fn answer(r: Result<(u32, Vec<Dir>), Error>) -> Answer {
    match r {
        Ok((d, p)) => Answer {
            dest: Some(d),
            path: Some(p.iter().map(|d| *d as usize).collect()),
            err: None,
        },
        Err(e) => Answer {
            dest: None,
            path: None,
            err: Some(e),
        },
    }
}

pub fn run_query(sp: &dyn Space, world: &World, q: &Query, hk: &Hooks) -> Call<Answer> {
    let r = run_query_(sp, world, q, hk);
    if let Call::Done(a) = &r {
        ev(
            "answer",
            a.path.as_ref().map_or(-1, |p| p.iter().fold(p.len() as i64, |h, d| h.wrapping_mul(31).wrapping_add(*d as i64))),
            a.dest.map_or(-1, |d| d as i64),
        );
    }
    r
}

fn run_query_(sp: &dyn Space, world: &World, q: &Query, hk: &Hooks) -> Call<Answer> {
    let n = world.n();
    let go = |c: u32, d: usize| {
        hk.enter("fault:panic-in-go");
        ensure!(c < n && d < 8, "foreign-position", "the movement function was asked about cell {c} direction {d}");
        world.go(c, d)
    };
    let goc = |c: u32, d: usize| {
        hk.enter("fault:panic-in-go");
        world.go(c, d).map(|k| (k, world.cost(c, d)))
    };
    match q.algo {
        0 => {
            let found = |c: u32| {
                hk.enter("fault:panic-in-goal-test");
                q.goals[c as usize]
            };
            call(|| answer(sp.bfs(q.flavor, &go, q.o, &found)))
        }
        1 => call(|| answer(sp.astar(q.flavor, &go, q.o, q.dest).map(|p| (q.dest, p)))),
        _ => call(|| answer(sp.ucs(q.flavor, &goc, q.o, q.dest).map(|p| (q.dest, p)))),
    }
}

fn describe(sp: &dyn Space, world: &World, q: &Query) -> String {
    let goals: Vec<usize> = q.goals.iter().enumerate().filter(|(_, g)| **g).map(|(i, _)| i).take(40).collect();
    format!(
        "{} search [{}] on {} from cell {} to {}; {}",
        ALGO[q.algo as usize],
        FLAVOR[q.flavor as usize],
        sp.name(),
        q.o,
        if q.algo == 0 { format!("goals {goals:?}") } else { format!("cell {}", q.dest) },
        world.show()
    )
}

/// Judge an answer against the reference search.
pub fn verify(sp: &dyn Space, world: &World, q: &Query, a: &Answer) {
    stat("checked");
    let what = || describe(sp, world, q);
    // Best possible.
    let (best, best_cost): (Option<u32>, Option<u128>) = match q.algo {
        0 => {
            let d = world.dist(q.o);
            let b = (0..world.n())
                .filter(|c| *c != q.o && q.goals[*c as usize] && d[*c as usize] != u32::MAX)
                .map(|c| d[c as usize])
                .min();
            (b, None)
        }
        1 => (Some(world.dist(q.o)[q.dest as usize]).filter(|d| *d != u32::MAX), None),
        _ => {
            let c = world.cheapest(q.o)[q.dest as usize];
            (c.map(|_| 0), c)
        }
    };
    if q.algo == 2 && best_cost.is_some_and(|c| c >= usize::MAX as u128) {
        // Not representable as a cost: nothing is promised.
        stat("unrepresentable-cost");
        return;
    }
    match (&a.path, best) {
        (None, None) => {
            stat("unreachable");
            ensure!(
                a.err == Some(Error::DestinationUnreachable),
                "wrong-error",
                "an unreachable destination was reported as {:?}: {}",
                a.err,
                what()
            );
        }
        (None, Some(b)) => fail(
            "missed-path",
            format!(
                "reported {:?}, but the destination can be reached ({}): {}",
                a.err,
                if q.algo == 2 { format!("cost {}", best_cost.unwrap()) } else { format!("{b} moves") },
                what()
            ),
        ),
        (Some(p), None) => fail("impossible-path", format!("returned {p:?} to {:?} although nothing is reachable: {}", a.dest, what())),
        (Some(p), Some(b)) => {
            stat("path-found");
            let dest = a.dest.unwrap();
            let mut c = q.o;
            let mut cost: u128 = 0;
            for (i, d) in p.iter().enumerate() {
                match world.mv(c, *d) {
                    Some(k) if world.d || d % 2 == 0 => {
                        cost += world.cost(c, *d) as u128;
                        c = k;
                    }
                    _ => fail(
                        "forbidden-step",
                        format!("step {i} (direction {d} from cell {c}) of path {p:?} is not allowed by the caller: {}", what()),
                    ),
                }
            }
            ensure!(c == dest, "wrong-end", "path {p:?} ends at cell {c}, reported destination {dest}: {}", what());
            if q.algo == 0 {
                ensure!(q.goals[dest as usize], "not-a-goal", "cell {dest} was not accepted by the goal test: {}", what());
                ensure!(dest != q.o, "origin-as-goal", "the origin itself was reported as found: {}", what());
            }
            if q.algo == 2 {
                ensure!(
                    cost == best_cost.unwrap(),
                    "not-cheapest",
                    "path {p:?} costs {cost}, the cheapest costs {}: {}",
                    best_cost.unwrap(),
                    what()
                );
            } else {
                ensure!(p.len() as u32 == b, "not-shortest", "path {p:?} has {} moves, {b} suffice: {}", p.len(), what());
            }
            if p.len() as u64 > world.w as u64 * world.w as u64 {
                stat("path-longer-than-width-squared");
            }
        }
    }
}

/// Many quick searches one after another on this thread, all of them
/// finished, unwound or abandoned: whatever a search might leave behind adds up.
fn storm() {
    let sp = pick_space(Mix::Small);
    let world = Rc::new(gen_world(sp.w(), sp.h(), sp.d()));
    let kind = w(4);
    let count = 1 + w(if w(8) == 7 { 300 } else { 48 });
    let mut rng = Rng::new(w(1 << 20));
    stat("search-storm");
    stat_n("search-storm-searches", count);
    for _ in 0..count {
        let algo = rng.below(3) as u8;
        let n = world.n();
        let q = Query {
            algo,
            flavor: sp.flavors()[rng.below(sp.flavors().len() as u64) as usize],
            o: rng.below(n as u64) as u32,
            dest: rng.below(n as u64) as u32,
            goals: vec![false; n as usize],
        };
        match if kind == 3 { rng.below(3) } else { kind } {
            0 => {
                let mut hk = Hooks::plain();
                hk.panic_at = 1 + rng.below(8);
                let _ = run_query(sp, &world, &q, &hk);
            }
            1 => {
                let (w1, w2, w3) = (world.clone(), world.clone(), world.clone());
                let fl = sp.iter_flavors()[rng.below(sp.iter_flavors().len() as u64) as usize];
                let _ = call(|| {
                    let mut cur = match algo {
                        0 => sp.bf_iter(fl, Rc::new(move |c, d| w1.go(c, d)), q.o),
                        1 => sp.astar_iter(fl, Rc::new(move |c, d| w2.go(c, d)), q.o, q.dest),
                        _ => sp.ucs_iter(fl, Rc::new(move |c, d| w3.go(c, d).map(|k| (k, 1))), q.o),
                    };
                    for _ in 0..q.dest % 3 {
                        let _ = cur.step();
                    }
                });
            }
            _ => {
                let _ = run_query(sp, &world, &q, &Hooks::plain());
            }
        }
    }
}

/// Noise that precedes, surrounds or interrupts verified searches.
pub fn noise(mix_: Mix) {
    if w(16) == 15 {
        return storm();
    }
    let sp = pick_space(mix_);
    let world = Rc::new(gen_world(sp.w(), sp.h(), sp.d()));
    let algo = w(3) as u8;
    match w(3) {
        0 => {
            // Suspended and abandoned iteration.
            let hk = Rc::new(Hooks::plain());
            let (w1, h1) = (world.clone(), hk.clone());
            let n = world.n();
            let o = w(n as u64) as u32;
            let t = w(n as u64) as u32;
            let fl = *pick(sp.iter_flavors());
            let steps = w(12);
            stat("abandoned-iteration");
            let _ = call(|| {
                let mut cur = match algo {
                    0 => sp.bf_iter(fl, Rc::new(move |c, d| { h1.enter("fault:panic-in-go"); w1.go(c, d) }), o),
                    1 => sp.astar_iter(fl, Rc::new(move |c, d| { h1.enter("fault:panic-in-go"); w1.go(c, d) }), o, t),
                    _ => sp.ucs_iter(fl, Rc::new(move |c, d| { h1.enter("fault:panic-in-go"); w1.go(c, d).map(|k| (k, w1.cost(c, d).min(99))) }), o),
                };
                for _ in 0..steps {
                    let _ = cur.step();
                }
            });
        }
        _ => {
            let q = gen_query(sp, world.focus, algo);
            let mut hk = Hooks::plain();
            hk.panic_at = 1 + f(40);
            let _ = run_query(sp, &world, &q, &hk);
        }
    }
}

/// One verified search with whatever the simulator puts around it. `depth`:
/// 0 outermost, 1 nested, 2.. so many more levels to go, MAX innermost.
pub fn verified(algo: u8, m: Mix, depth: u32) {
    let sp = pick_space(m);
    let world = gen_world(sp.w(), sp.h(), sp.d());
    let q = gen_query(sp, world.focus, algo);
    let mut hk = Hooks::plain();
    if (depth > 1 && depth != u32::MAX) || (depth == 1 && wp(1, 6)) {
        // A tower of searches, each inside the previous one's callback.
        hk.nest_at = 1 + w(6);
        let left = if depth > 1 { depth - 1 } else { 2 + w(40) as u32 };
        stat("deep-nesting");
        *hk.nest.borrow_mut() = Some(Box::new(move || verified(algo, Mix::Small, if left > 1 { left } else { u32::MAX })));
    }
    if depth == 0 {
        if wp(1, 4) {
            hk.nest_at = 1 + w(12);
            let k = w(3);
            *hk.nest.borrow_mut() = Some(Box::new(move || match k {
                0 => verified(algo, Mix::Small, 1),
                _ => noise(Mix::Small),
            }));
        }
        if fp(1, 6) {
            hk.panic_at = 1 + f(60);
        }
        if fp(1, 8) {
            hk.stall_at = 1 + f(30);
        }
    }
    note(|| describe(sp, &world, &q));
    let mut tries = 0;
    loop {
        match run_query(sp, &world, &q, &hk) {
            Call::Done(a) => {
                verify(sp, &world, &q, &a);
                return;
            }
            Call::Injected(_) => {
                // The caller's own panic came back: ask again, it must work now.
                stat("retried-after-panic");
                hk.panic_at = 0;
                tries += 1;
                if tries > 2 {
                    return;
                }
            }
            Call::Panicked(msg) => fail("library-panic", format!("the library panicked: {msg}; {}", describe(sp, &world, &q))),
        }
    }
}

/// A client's whole life in the path-search properties.
pub fn path_client(algo: u8, m: Mix, ops: u64) {
    for _ in 0..ops {
        if wp(1, 3) {
            noise(if m == Mix::WithLarge { Mix::Usual } else { m });
        } else {
            verified(algo, m, 0);
        }
    }
    verified(algo, m, 0);
}

pub fn path_scenario(algo: u8) {
    let clients = 1 + w(4);
    set_gap_scale(1 << w(9));
    let mut tasks: Vec<(u64, Task)> = vec![];
    for _ in 0..clients {
        let ops = w(4);
        let hs = w(1 << 32);
        tasks.push((hs, Box::new(move || path_client(algo, if clients == 1 { Mix::WithLarge } else { Mix::Usual }, ops))));
    }
    run_tasks(tasks, 24 << 20);
}
