//! C12 and the boolean half of C09: boolean grids against plain tables.

use crate::elems::*;
use crate::objs::*;
use crate::table::{arm_reentry, turned};
use simcore::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub struct BSlot {
    pub g: Box<dyn BoolObj>,
    m: Vec<bool>,
    s: &'static dyn BoolShape,
}

fn show(m: &[bool]) -> String {
    m.iter().map(|b| if *b { '#' } else { '.' }).collect()
}

fn run<R>(what: &dyn Fn() -> String, body: impl FnOnce() -> R) -> Result<R, Option<String>> {
    let r = call(body);
    disarm();
    match r {
        Call::Done(r) => Ok(r),
        Call::Injected(k) => {
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {}", last_fault(), what());
            stat("cut-short");
            Err(None)
        }
        Call::Panicked(m) => Err(Some(m)),
    }
}
fn own(what: &dyn Fn() -> String, m: String) -> ! {
    fail("library-panic", format!("{} panicked: {m}", what()))
}
/// For calls that may be cut short: was it?
fn cut<R>(what: &dyn Fn() -> String, r: Result<R, Option<String>>) -> bool {
    match r {
        Ok(_) => false,
        Err(None) => true,
        Err(Some(m)) => own(what, m),
    }
}

fn verify(s: &BSlot, what: &dyn Fn() -> String) {
    verify_as(s, w(7), what)
}
fn verify_as(s: &BSlot, how: u64, what: &dyn Fn() -> String) {
    let n = s.m.len() as u32;
    let mut got: Vec<bool> = vec![];
    match how {
        0 | 1 => {
            let mut due = 0;
            s.g.walk(how, &mut |c, v| {
                ensure!(c == due && c < n, "iteration-order", "all-cells walk {how} visited {c} when {due} was due on {} after {}", s.s.name(), what());
                due += 1;
                got.push(v);
                true
            });
            ensure!(due == n, "iteration-order", "all-cells walk {how} ended after {due} of {n} cells on {} after {}", s.s.name(), what());
        }
        2 | 3 => {
            got = vec![how == 3; n as usize];
            let mut prev = None;
            s.g.walk(how, &mut |c, v| {
                ensure!(
                    c < n && prev.is_none_or(|p| p < c),
                    "iteration-order",
                    "{v}-cells walk visited {c} after {prev:?} on {} after {}",
                    s.s.name(),
                    what()
                );
                prev = Some(c);
                got[c as usize] = v;
                true
            });
        }
        _ => {
            for c in 0..n {
                got.push(s.g.get(c, how - 4));
            }
        }
    }
    if got != s.m {
        let c = (0..n as usize).find(|c| got[*c] != s.m[*c]).unwrap();
        fail(
            "wrong-content",
            format!(
                "cell {c} reads {} (way {how}) on {} after {}; grid {} table {}",
                got[c],
                s.s.name(),
                what(),
                show(&got),
                show(&s.m)
            ),
        );
    }
    stat("checked");
}

fn fuse(n: usize) -> Option<usize> {
    if fp(1, 3) {
        Some(f(n as u64 + 2) as usize)
    } else {
        None
    }
}

fn op_constant(s: &'static dyn BoolShape) -> BSlot {
    let v = wp(1, 2);
    let how = w(3);
    let what = || format!("constant {v} on {} (way {how})", s.name());
    note(&what);
    let g = match run(&what, || s.constant(v, how)) {
        Ok(g) => g,
        Err(m) => own(&what, m.unwrap_or_default()),
    };
    let s = BSlot {
        g,
        m: vec![v; (s.w() * s.h()) as usize],
        s,
    };
    verify(&s, &what);
    s
}

fn op_collect_bools(s: &'static dyn BoolShape) -> Option<BSlot> {
    let size = (s.w() * s.h()) as usize;
    let n = match w(8) {
        0..=4 => size,
        5 => size.saturating_sub(1 + w(3) as usize),
        6 => size + 1 + w(3) as usize,
        _ => w(2 * size as u64 + 1) as usize,
    };
    let dense = 1 + w(4);
    let v: Vec<bool> = (0..n).map(|_| wp(dense, 5)).collect();
    let k = fuse(n);
    let bad = fp(1, 40);
    let mut left = f(4);
    let hint = lying_hint(n);
    let what = || format!("collecting {n} booleans (stream panic at {k:?}) into {}", s.name());
    note(&what);
    let mut st = stream(v.clone(), k, hint, Rc::new(Cell::new(0)), || {
        left = left.checked_sub(1)?;
        Some(true)
    });
    arm_reentry(0, size as u64);
    let r = run(&what, || s.collect_bools(Lazy(&mut st, bad)));
    ev("collect", n as i64, r.is_ok() as i64);
    match r {
        Ok(g) => {
            ensure!(n == size, "length-ignored", "{} succeeded", what());
            ensure!(!bad && k.is_none_or(|k| k > n), "panic-swallowed", "{} succeeded", what());
            let s = BSlot { g, m: v, s };
            verify(&s, &what);
            Some(s)
        }
        Err(None) => None,
        Err(Some(m)) => {
            if n == size || bad || k.is_some_and(|k| k <= n.min(size)) {
                own(&what, m);
            }
            stat("wrong-length-reported");
            stat("checked");
            None
        }
    }
}

fn some_cells(size: usize) -> Vec<u32> {
    match w(5) {
        4 => {
            // A few cells over and over.
            let few: Vec<u32> = (0..1 + w(6)).map(|_| w(size as u64) as u32).collect();
            (0..w(120)).map(|_| *pick(&few)).collect()
        }
        0 => (0..size as u32).filter(|_| wp(1, 2)).collect(),
        1 => (0..size as u32).collect(),
        _ => (0..w(size as u64 + 4)).map(|_| w(size as u64) as u32).collect(),
    }
}

fn op_collect_cells(s: &'static dyn BoolShape) -> Option<BSlot> {
    let size = (s.w() * s.h()) as usize;
    let cells = some_cells(size);
    let k = fuse(cells.len());
    let bad = fp(1, 40);
    let mut left = f(3);
    let hint = lying_hint(cells.len());
    let what = || format!("collecting cells {cells:?} (stream panic at {k:?}) into {}", s.name());
    note(&what);
    let mut st = stream(cells.clone(), k, hint, Rc::new(Cell::new(0)), || {
        left = left.checked_sub(1)?;
        Some(0)
    });
    arm_reentry(0, cells.len() as u64);
    let r = run(&what, || s.collect_cells(Lazy(&mut st, bad)));
    ev("cells", cells.len() as i64, r.is_ok() as i64);
    match r {
        Ok(g) => {
            ensure!(!bad && k.is_none_or(|k| k > cells.len()), "panic-swallowed", "{} succeeded", what());
            let mut m = vec![false; size];
            for c in cells.iter() {
                m[*c as usize] = true;
            }
            let s = BSlot { g, m, s };
            verify(&s, &what);
            Some(s)
        }
        Err(None) => None,
        Err(Some(m)) => own(&what, m),
    }
}

fn op_bulk(s: &mut BSlot) {
    let size = s.m.len();
    let cells = some_cells(size);
    let v = wp(1, 2);
    let k = fuse(cells.len());
    let hint = lying_hint(cells.len());
    let mut left = f(3);
    let cnt = Rc::new(Cell::new(0));
    let name = s.s.name();
    let what = || format!("setting cells {cells:?} to {v} (stream panic at {k:?}) on {name}");
    note(&what);
    let mut st = stream(cells.clone(), k, hint, cnt.clone(), || {
        left = left.checked_sub(1)?;
        Some(0)
    });
    arm_reentry(0, cells.len() as u64);
    let r = run(&what, || s.g.set_iter(v, &mut st));
    let was_cut = cut(&what, r);
    let got = cnt.get();
    ev("bulk", got as i64, was_cut as i64);
    if !was_cut {
        ensure!(got == cells.len(), "items-ignored", "{} took only {got} items", what());
    }
    for c in &cells[..got] {
        s.m[*c as usize] = v;
    }
    verify(s, &what);
}

fn op_set(s: &mut BSlot) {
    let c = w(s.m.len() as u64) as u32;
    let v = wp(1, 2);
    let how = w(2);
    let name = s.s.name();
    let what = || format!("setting cell {c} to {v} on {name} (way {how})");
    note(&what);
    let r = run(&what, || s.g.set(c, v, how));
    cut(&what, r);
    s.m[c as usize] = v;
    ev("set", c as i64, v as i64);
    verify(s, &what);
}

fn op_turn(s: &mut BSlot) {
    let k = if s.s.square() { w(4) } else { w(2) };
    let names = ["horizontal flip", "vertical flip", "clockwise turn", "counterclockwise turn"];
    let name = s.s.name();
    let what = || format!("{} of {name}", names[k as usize]);
    note(&what);
    let r = run(&what, || match k {
        0 => s.g.flip_h(),
        1 => s.g.flip_v(),
        _ => s.g.rotate(k == 2),
    });
    cut(&what, r);
    s.m = turned(&s.m, s.s.w() as usize, s.s.h() as usize, k);
    ev("turn", k as i64, 0);
    verify(s, &what);
}

/// The same content put together cell by cell.
fn rebuilt(s: &BSlot) -> BSlot {
    let style = w(5);
    let mut g = s.s.constant(style == 1, if style == 0 { 2 } else { 1 });
    match style {
        0 | 1 => {
            for (c, v) in s.m.iter().enumerate() {
                g.set(c as u32, *v, w(2));
            }
        }
        2 => {
            let mut it = s.m.iter().copied();
            g = s.s.collect_bools(Lazy(&mut it, false));
        }
        3 => {
            let mut it = (0..s.m.len() as u32).filter(|c| s.m[*c as usize]);
            g = s.s.collect_cells(Lazy(&mut it, false));
        }
        _ => {
            // From all true, backwards, by bulk clearing.
            g.set_iter(true, &mut (0..s.m.len() as u32).rev());
            g.set_iter(false, &mut (0..s.m.len() as u32).rev().filter(|c| !s.m[*c as usize]));
        }
    }
    BSlot { g, m: s.m.clone(), s: s.s }
}

fn op_compare(a: &BSlot, b: &BSlot) {
    let name = a.s.name();
    let what = || format!("comparing {name} grids {} and {}", show(&a.m), show(&b.m));
    note(&what);
    let eq = match run(&what, || a.g.same(&*b.g)) {
        Ok(e) => e,
        Err(m) => own(&what, m.unwrap_or_default()),
    };
    ensure!(
        eq == (a.m == b.m),
        "wrong-equality",
        "{name} grids {} and {} compare as {}",
        show(&a.m),
        show(&b.m),
        if eq { "equal" } else { "different" }
    );
    ensure!(
        (a.g.cmp(&*b.g) == Ordering::Equal) == (a.m == b.m),
        "wrong-order",
        "{name} grids {} and {} order as {:?}",
        show(&a.m),
        show(&b.m),
        a.g.cmp(&*b.g)
    );
    if eq {
        stat("found-equal");
        ensure!(a.g.hash() == b.g.hash(), "wrong-hash", "equal {name} grids {} hash differently", show(&a.m));
    }
    ev("same", eq as i64, 0);
    verify(a, &what);
}

fn shape() -> &'static dyn BoolShape {
    *pick(BOOLS)
}

/// For use from inside another operation.
pub fn reentry() {
    let s = BOOLS[w(12) as usize];
    let mut g = op_constant(s);
    match w(3) {
        0 => drop(op_collect_bools(s)),
        1 => op_bulk(&mut g),
        _ => op_turn(&mut g),
    }
}

/// Loading only, for C09.
pub fn c09_client(huge: bool, ops: u64) {
    let s = if huge { *pick(HUGE_BOOLS) } else { shape() };
    let mut cur = op_constant(s);
    for _ in 0..ops {
        match w(4) {
            0 => cur = op_collect_bools(s).unwrap_or(cur),
            1 => cur = op_collect_cells(s).unwrap_or(cur),
            _ => op_bulk(&mut cur),
        }
        yp();
    }
}

type Pool = Arc<Mutex<Baton<Vec<BSlot>>>>;

fn take(p: &Pool, like: Option<&BSlot>) -> Option<BSlot> {
    let mut g = p.lock().unwrap();
    let ok: Vec<usize> = (0..g.0.len())
        .filter(|j| like.is_none_or(|l| g.0[*j].g.any().type_id() == l.g.any().type_id()))
        .collect();
    if ok.is_empty() {
        return None;
    }
    let k = *pick(&ok);
    Some(g.0.swap_remove(k))
}
fn give(p: &Pool, s: BSlot) {
    let mut g = p.lock().unwrap();
    g.0.push(s);
    if g.0.len() > 7 {
        g.0.remove(0);
    }
}

fn c12_client(pool: Pool, ss: [&'static dyn BoolShape; 2], ops: u64) {
    for _ in 0..ops {
        let op = w(18);
        if op < 3 {
            let s = ss[w(2) as usize];
            let made = match op {
                0 => Some(op_constant(s)),
                1 => op_collect_bools(s),
                _ => op_collect_cells(s),
            };
            if let Some(x) = made {
                give(&pool, x);
            }
            yp();
            continue;
        }
        let Some(mut x) = take(&pool, None) else {
            give(&pool, op_constant(ss[0]));
            yield_blocked();
            continue;
        };
        match op {
            3..=6 => op_set(&mut x),
            7 | 8 => op_bulk(&mut x),
            9..=11 => op_turn(&mut x),
            12 => {
                let what = || "copying a boolean grid".to_string();
                note(what);
                let d = BSlot { g: x.g.dup(), m: x.m.clone(), s: x.s };
                verify(&d, &what);
                stat("snapshots");
                give(&pool, d);
            }
            13 => {
                if let Some(mut o) = take(&pool, Some(&x)) {
                    let how = w(2);
                    note(|| "copying the words of a boolean grid".to_string());
                    o.g.words_from(&*x.g, how);
                    o.m = x.m.clone();
                    verify(&o, &|| format!("copying the words of another grid (way {how})"));
                    give(&pool, o);
                }
            }
            14 => {
                if let Some(o) = take(&pool, Some(&x)) {
                    op_compare(&x, &o);
                    give(&pool, o);
                }
            }
            15 | 16 => {
                let r = rebuilt(&x);
                op_compare(&x, &r);
                if wp(1, 3) {
                    give(&pool, r);
                }
            }
            _ => {
                // Just look, slowly.
                let how = w(4);
                let stop = if wp(1, 2) { u32::MAX } else { w(x.m.len() as u64) as u32 };
                x.g.walk(how, &mut |c, v| {
                    yp();
                    ensure!(
                        (c as usize) < x.m.len() && v == x.m[c as usize],
                        "wrong-content",
                        "walk {how} shows {v} at cell {c} of {}; table {}",
                        x.s.name(),
                        show(&x.m)
                    );
                    c < stop
                });
            }
        }
        give(&pool, x);
        yp();
    }
}

pub fn c12() {
    set_gap_scale(1 << w(7));
    let huge = wp(1, 600);
    let ss = if huge {
        stat("huge-grids");
        [*pick(HUGE_BOOLS), *pick(HUGE_BOOLS)]
    } else {
        [shape(), shape()]
    };
    let pool: Pool = Arc::new(Mutex::new(Baton(vec![])));
    let n = 1 + w(3);
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = if huge { 3 + w(5) } else { 4 + w(40) };
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    c12_client(p.into(), ss, ops)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 4 << 20);
    let rest = std::mem::take(&mut pool.lock().unwrap().0);
    for s in &rest {
        for how in if huge { 2..5 } else { 0..7 } {
            verify_as(s, how, &|| "the end".to_string());
        }
        op_compare(s, &rebuilt(s));
    }
}
