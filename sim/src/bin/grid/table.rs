//! C09, C10, C11: grids of elements against plain tables.

use crate::bools;
use crate::elems::*;
use crate::objs::*;
use simcore::*;
use sqrid::Error;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub struct Slot<T: 'static> {
    pub g: Box<dyn GridObj<T>>,
    pub m: Vec<i64>,
    s: &'static dyn Shape<T>,
}

/// What a scenario asks of the shared operations.
#[derive(Clone, Copy)]
struct Mode {
    /// Compare contents with the table.
    values: bool,
    /// Panics may also be injected into element code.
    arm: bool,
}

fn val() -> i64 {
    if wp(1, 3) {
        w(3) as i64
    } else {
        w(100_000) as i64 + 1
    }
}

fn show(m: &[i64]) -> String {
    let mut s = format!("{m:?}");
    if s.len() > 400 {
        s.truncate(400);
        s.push('…');
    }
    s
}

/// Compare every cell, by one of the ways to read.
fn verify<T: Elem>(mode: Mode, s: &Slot<T>, what: &dyn Fn() -> String) {
    if !mode.values {
        return;
    }
    verify_as(s, w(10), what)
}
fn verify_as<T: Elem>(s: &Slot<T>, how: u64, what: &dyn Fn() -> String) {
    let n = s.m.len();
    let (wd, ht) = (s.g.w(), s.g.h());
    let mut got: Vec<i64> = Vec::with_capacity(n);
    match how {
        0..=2 => {
            let mut next = 0;
            s.g.walk(how, &mut |c, t| {
                ensure!(
                    c == next && next < n as u32,
                    "iteration-order",
                    "walk {how} visited cell {c} when {next} was due on {} after {}",
                    s.g.name(),
                    what()
                );
                next += 1;
                got.push(t.val());
                true
            });
            ensure!(
                next as usize == n,
                "iteration-order",
                "walk {how} ended after {next} of {n} cells on {} after {}",
                s.g.name(),
                what()
            );
        }
        3 => {
            for y in 0..ht {
                let l = s.g.line(y);
                ensure!(l.len() == wd as usize, "line-length", "line {y} has {} cells on {} after {}", l.len(), s.g.name(), what());
                got.extend(l.iter().map(|t| t.val()));
            }
        }
        _ => {
            for c in 0..n as u32 {
                got.push(s.g.get(c, how - 4).val());
            }
        }
    }
    for c in 0..n {
        if got[c] != s.m[c] {
            fail(
                "wrong-content",
                format!(
                    "cell {c} (x={} y={}) holds {} instead of {} on {} after {}; grid {} table {}",
                    c as u32 % wd,
                    c as u32 / wd,
                    got[c],
                    s.m[c],
                    s.g.name(),
                    what(),
                    show(&got),
                    show(&s.m)
                ),
            );
        }
    }
    stat("checked");
}

/// Some other use of the library, from inside the caller's code.
fn reentry() {
    stat("used-from-inside-itself");
    let mode = Mode { values: true, arm: false };
    let s = NUMS[w(10) as usize];
    match w(8) {
        0 => drop(op_collect(mode, s)),
        1 => drop(op_rows(mode, s)),
        2 => bools::reentry(),
        k => {
            if let Some(mut g) = op_default(mode, s) {
                match k {
                    3 => op_extend(mode, &mut g),
                    4 => op_vecvec(mode, &mut g, false),
                    5 => op_turn(mode, &mut g),
                    6 => drop(op_dup(mode, &g)),
                    _ => op_consume(mode, g),
                }
            }
        }
    }
}
pub fn arm_reentry(mask: u8, n: u64) {
    if wp(1, 20) {
        arm_inside(1 + w(n.min(64) + 2), (mask & !DROP) | STREAM, reentry);
    }
}

fn arm_for(mode: Mode, mask: u8, n: u64) {
    arm_reentry(mask, n);
    if mode.arm && fp(1, 3) {
        arm(1 + f(n + 2), mask);
    }
}

enum How<R> {
    Done(R),
    Cut,
    Own(String),
}
/// Run a library call; an injected panic must come out unharmed.
fn run<R>(what: &dyn Fn() -> String, body: impl FnOnce() -> R) -> How<R> {
    let r = call(body);
    disarm();
    match r {
        Call::Done(r) => How::Done(r),
        Call::Injected(k) => {
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {}", last_fault(), what());
            stat("cut-short");
            How::Cut
        }
        Call::Panicked(m) => How::Own(m),
    }
}
fn own(what: &dyn Fn() -> String, m: String) -> ! {
    fail("library-panic", format!("{} panicked: {m}", what()))
}

fn fuse(n: usize) -> Option<usize> {
    if fp(1, 3) {
        Some(f(n as u64 + 2) as usize)
    } else {
        None
    }
}

/* ------------------------------------------------------------ bulk loading */

fn count_near(size: usize) -> usize {
    match w(8) {
        0..=4 => size,
        5 => size.saturating_sub(1 + w(3) as usize),
        6 => size + 1 + w(3) as usize,
        _ => w(2 * size as u64 + 1) as usize,
    }
}

fn op_collect<T: Elem>(mode: Mode, s: &'static dyn Shape<T>) -> Option<Slot<T>> {
    let size = (s.w() * s.h()) as usize;
    let n = count_near(size);
    let refs = T::COPY && wp(1, 3);
    let v: Vec<i64> = (0..n).map(|_| if refs { w(256) as i64 } else { val() }).collect();
    let k = fuse(n);
    let bad = fp(1, 40);
    let extra = f(4);
    let hint = lying_hint(n);
    let cnt = Rc::new(Cell::new(0));
    let what = || format!("collecting {n} values (stream panic at {k:?}) into {} of {size} cells", s.name());
    note(|| format!("collect {n} into {}", s.name()));
    let mut left = extra;
    let r = if refs {
        let items: Vec<&'static T> = v.iter().map(|x| T::pooled(*x)).collect();
        let mut st = stream(items, k, hint, cnt.clone(), || {
            left = left.checked_sub(1)?;
            Some(T::pooled(77))
        });
        arm_for(mode, DEFAULT | CLONE, size as u64 * 2);
        run(&what, || s.collect_refs(Lazy(&mut st, bad)))
    } else {
        let items: Vec<T> = v.iter().map(|x| T::make(*x)).collect();
        let mut st = stream(items, k, hint, cnt.clone(), || {
            left = left.checked_sub(1)?;
            Some(T::make(-77))
        });
        arm_for(mode, DEFAULT | CLONE, size as u64 * 2);
        let r = run(&what, || s.collect(Lazy(&mut st, bad)));
        drop(st);
        r
    };
    ev("collect", n as i64, matches!(r, How::Done(_)) as i64);
    match r {
        How::Done(g) => {
            if mode.values {
                ensure!(n == size, "length-ignored", "{} succeeded", what());
                ensure!(!bad && k.is_none_or(|k| k > n), "panic-swallowed", "{} succeeded", what());
            }
            let mut m = v;
            m.resize(size, DEF);
            let s = Slot { g, m, s };
            verify(mode, &s, &what);
            Some(s)
        }
        How::Cut => None,
        How::Own(msg) => {
            if n == size || k.is_some_and(|k| k <= n.min(size)) || bad {
                own(&what, msg);
            }
            stat("wrong-length-reported");
            stat("checked");
            None
        }
    }
}

fn op_extend<T: Elem>(mode: Mode, s: &mut Slot<T>) {
    let size = s.m.len();
    let n = if wp(1, 10) { 20 + w(180) } else { w(1 + (size as u64 * 2).min(24)) } as usize;
    let how = if T::COPY { w(3) } else { 0 };
    // All over the grid, or a few cells over and over.
    let few: Vec<u32> = if wp(1, 3) { (0..1 + w(8)).map(|_| w(size as u64) as u32).collect() } else { vec![] };
    let items: Vec<(u32, i64)> = (0..n)
        .map(|_| {
            let c = if few.is_empty() { w(size as u64) as u32 } else { *pick(&few) };
            (c, if how == 1 { w(256) as i64 } else { val() })
        })
        .collect();
    let k = fuse(n);
    let bad = fp(1, 40);
    let mut left = f(4);
    let hint = lying_hint(n);
    let cnt = Rc::new(Cell::new(0usize));
    let name = s.g.name();
    let what = || format!("extending {name} from {items:?} (way {how}, stream panic at {k:?})");
    note(|| format!("extend {name} by {n} way {how}"));
    let r = match how {
        0 => {
            let it: Vec<(u32, T)> = items.iter().map(|(c, v)| (*c, T::make(*v))).collect();
            let mut st = stream(it, k, hint, cnt.clone(), || {
                left = left.checked_sub(1)?;
                Some((0, T::make(-77)))
            });
            arm_for(mode, DROP, n as u64);
            let r = run(&what, || s.g.extend(Lazy(&mut st, bad)));
            drop(st);
            r
        }
        1 => {
            let it: Vec<(u32, &'static T)> = items.iter().map(|(c, v)| (*c, T::pooled(*v))).collect();
            let mut st = stream(it, k, hint, cnt.clone(), || {
                left = left.checked_sub(1)?;
                Some((0, T::pooled(77)))
            });
            arm_for(mode, 0, n as u64);
            run(&what, || s.g.extend_refs(Lazy(&mut st, bad)))
        }
        _ => {
            let it: Vec<(u32, T)> = items.iter().map(|(c, v)| (*c, T::make(*v))).collect();
            arm_for(mode, 0, n as u64);
            run(&what, || {
                s.g.extend_pairs(&it, &mut || {
                    stream_touch();
                    if Some(cnt.get()) == k {
                        inject_panic("fault:panic-in-stream");
                    }
                    cnt.set(cnt.get() + 1);
                })
            })
        }
    };
    let done = match r {
        How::Done(()) => true,
        How::Cut => false,
        How::Own(m) => own(&what, m),
    };
    ev("extend", n as i64, done as i64);
    let got = cnt.get();
    if mode.values && done {
        ensure!(got == n, "items-ignored", "{} took only {got} items", what());
    }
    for (c, v) in &items[..got] {
        s.m[*c as usize] = *v;
    }
    verify(mode, s, &what);
}

/// Rows of values; some ragged, some reaching outside.
fn mk_rows(wd: usize, ht: usize) -> Vec<Vec<i64>> {
    let style = w(8);
    let rows = match w(6) {
        0..=2 => ht,
        3 => w(ht as u64 + 1) as usize,
        4 => ht + w(3) as usize,
        _ => w(2 * ht as u64 + 2) as usize,
    };
    (0..rows)
        .map(|y| {
            let n = match style {
                0..=2 => wd,
                3 => w(wd as u64 + 1) as usize,
                4 => {
                    if wp(1, 6) {
                        wd + 1 + w(3) as usize
                    } else {
                        w(wd as u64 + 1) as usize
                    }
                }
                5 if y >= ht => 0,
                // Near the edge, or anywhere.
                6 => (wd + w(3) as usize).saturating_sub(1),
                _ => w(wd as u64 + 2) as usize,
            };
            (0..n).map(|_| val()).collect()
        })
        .collect()
}

fn op_rows<T: Elem>(mode: Mode, s: &'static dyn Shape<T>) -> Option<Slot<T>> {
    let (wd, ht) = (s.w() as usize, s.h() as usize);
    let rows = mk_rows(wd, ht);
    let lens: Vec<usize> = rows.iter().map(|r| r.len()).collect();
    let what = || format!("building {} from rows of lengths {lens:?}", s.name());
    note(&what);
    let v: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|x| T::make(*x)).collect()).collect();
    arm_for(mode, DEFAULT, (wd * ht) as u64 * 2);
    let r = run(&what, || s.rows(v));
    let fits = rows.len() <= ht && rows.iter().all(|r| r.len() <= wd);
    ev("rows", fits as i64, matches!(r, How::Done(_)) as i64);
    match r {
        How::Done(Ok(g)) => {
            let mut m = vec![DEF; wd * ht];
            if mode.values {
                ensure!(fits, "outside-ignored", "{} succeeded", what());
            }
            for (y, r) in rows.iter().enumerate() {
                for (x, v) in r.iter().enumerate() {
                    if y < ht && x < wd {
                        m[y * wd + x] = *v;
                    }
                }
            }
            let s = Slot { g, m, s };
            verify(mode, &s, &what);
            Some(s)
        }
        How::Done(Err(e)) => {
            if mode.values {
                ensure!(!fits && e == Error::OutOfBounds, "wrong-error", "{} reported {e:?}", what());
                stat("outside-reported");
                stat("checked");
            }
            None
        }
        How::Cut => None,
        How::Own(m) => own(&what, m),
    }
}

/// Far outside: beyond what 16 bits can count.
fn far_rows(wd: usize) -> Vec<Vec<i64>> {
    let n = 65_536 + w(3) as usize;
    if wp(1, 2) {
        let mut v: Vec<Vec<i64>> = vec![vec![]; n];
        v.push((0..1 + w(wd as u64)).map(|_| val()).collect());
        v
    } else {
        let mut v = vec![];
        for _ in 0..w(2) {
            v.push((0..wd).map(|_| val()).collect());
        }
        v.push((0..n).map(|i| 1 + i as i64 % 1000).collect());
        v
    }
}

fn op_vecvec<T: Elem>(mode: Mode, s: &mut Slot<T>, far: bool) {
    let (wd, ht) = (s.g.w() as usize, s.g.h() as usize);
    let rows = if far { far_rows(wd) } else { mk_rows(wd, ht) };
    let lens: Vec<usize> = if far { vec![rows.len(), rows[rows.len() - 1].len()] } else { rows.iter().map(|r| r.len()).collect() };
    let name = s.g.name();
    let what = || format!("loading rows of lengths {lens:?} into {name}");
    note(&what);
    // Cells named before the first one outside, in row order.
    let mut named: Vec<(usize, i64)> = vec![];
    let mut outside = false;
    'all: for (y, r) in rows.iter().enumerate() {
        for (x, v) in r.iter().enumerate() {
            if x >= wd || y >= ht {
                outside = true;
                break 'all;
            }
            named.push((y * wd + x, *v));
        }
    }
    let empty_rows_outside = rows.len() > ht && !outside;
    let v: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|x| T::make(*x)).collect()).collect();
    arm_for(mode, DROP, named.len() as u64);
    let r = run(&what, || s.g.vecvec(v));
    let mut cut = false;
    match r {
        How::Done(Ok(())) => {
            if mode.values {
                ensure!(!outside, "outside-ignored", "{} succeeded", what());
            }
        }
        How::Done(Err(e)) => {
            if mode.values {
                ensure!((outside || empty_rows_outside) && e == Error::OutOfBounds, "wrong-error", "{} reported {e:?}", what());
                stat("outside-reported");
            }
        }
        How::Cut => cut = true,
        How::Own(m) => own(&what, m),
    }
    ev("vecvec", outside as i64, cut as i64);
    if cut && mode.values {
        // A replaced element's drop panicked: some prefix was applied.
        let mut got = vec![];
        s.g.walk(0, &mut |_, t| {
            got.push(t.val());
            true
        });
        let mut k = 0;
        while got != s.m && k < named.len() {
            s.m[named[k].0] = named[k].1;
            k += 1;
        }
        ensure!(got == s.m, "wrong-content", "after {} was cut short the grid is no prefix of the load: {}", what(), show(&got));
    } else if !cut {
        for (c, v) in named {
            s.m[c] = v;
        }
    }
    verify(mode, s, &what);
}

/* ----------------------------------------------------------- small changes */

fn op_default<T: Elem>(mode: Mode, s: &'static dyn Shape<T>) -> Option<Slot<T>> {
    let n = (s.w() * s.h()) as usize;
    let what = || format!("default {}", s.name());
    note(&what);
    arm_for(mode, DEFAULT, n as u64);
    let v = val();
    let rep = T::COPY && wp(1, 2);
    match run(&what, || if rep { s.repeat(T::make(v)) } else { s.default() }) {
        How::Done(g) => {
            let s = Slot { g, m: vec![if rep { v } else { DEF }; n], s };
            verify(mode, &s, &what);
            Some(s)
        }
        How::Cut => None,
        How::Own(m) => own(&what, m),
    }
}

fn op_assign<T: Elem>(mode: Mode, s: &mut Slot<T>) {
    let c = w(s.m.len() as u64) as u32;
    let v = val();
    let how = w(10);
    let name = s.g.name();
    let what = || format!("writing {v} to cell {c} of {name} (way {how})");
    note(&what);
    match how {
        0..=2 => {
            let t = T::make(v);
            arm_for(mode, DROP, 1);
            if let How::Own(m) = run(&what, || s.g.assign(c, t, how)) {
                own(&what, m)
            }
        }
        _ => match run(&what, || s.g.get_mut(c, how - 3).put(v)) {
            How::Own(m) => own(&what, m),
            _ => {}
        },
    }
    s.m[c as usize] = v;
    ev("assign", c as i64, v);
    verify(mode, s, &what);
}

fn op_swap<T: Elem>(mode: Mode, s: &mut Slot<T>) {
    let (wd, ht) = (s.g.w(), s.g.h());
    let name = s.g.name();
    match w(4) {
        0 => {
            // Take one out, put another in.
            let c = w(s.m.len() as u64) as u32;
            let how = w(7);
            let v = val();
            let what = || format!("replacing cell {c} of {name}");
            note(&what);
            let t = T::make(v);
            let old = match run(&what, || std::mem::replace(s.g.get_mut(c, how), t)) {
                How::Done(o) => o,
                How::Cut => return,
                How::Own(m) => own(&what, m),
            };
            if mode.values {
                ensure!(old.val() == s.m[c as usize], "wrong-content", "{} took out {} instead of {}", what(), old.val(), s.m[c as usize]);
            }
            s.m[c as usize] = v;
            verify(mode, s, &what);
        }
        1 => {
            let y = w(ht as u64) as u32;
            let (a, b) = (w(wd as u64) as usize, w(wd as u64) as usize);
            let what = || format!("exchanging cells {a} and {b} of line {y} of {name}");
            note(&what);
            if let How::Own(m) = run(&what, || s.g.line_mut(y).swap(a, b)) {
                own(&what, m)
            }
            s.m.swap(y as usize * wd as usize + a, y as usize * wd as usize + b);
            verify(mode, s, &what);
        }
        2 => {
            let y = w(ht as u64) as u32;
            let what = || format!("reversing line {y} of {name}");
            note(&what);
            if let How::Own(m) = run(&what, || s.g.line_mut(y).reverse()) {
                own(&what, m)
            }
            let o = y as usize * wd as usize;
            s.m[o..o + wd as usize].reverse();
            verify(mode, s, &what);
        }
        _ => {
            // Walk and change, stopping or panicking on the way.
            let n = s.m.len();
            let stop = if wp(1, 3) { Some(w(n as u64 + 1) as u32) } else { None };
            let panic_at = if fp(1, 4) { Some(f(n as u64) as u32) } else { None };
            let how = w(2);
            let add = 1 + w(5) as i64;
            let what = || format!("adding {add} to each cell of {name} until {stop:?} (panic at {panic_at:?}, way {how})");
            note(&what);
            let seen = Cell::new(0u32);
            let r = run(&what, || {
                s.g.walk_mut(how, &mut |i, t| {
                    yp();
                    if stop == Some(i) {
                        return false;
                    }
                    if panic_at == Some(i) {
                        inject_panic("fault:panic-in-walk");
                    }
                    let v = t.val();
                    t.put(v + add);
                    seen.set(i + 1);
                    true
                })
            });
            if let How::Own(m) = r {
                own(&what, m)
            }
            for v in &mut s.m[..(seen.get() as usize).min(n)] {
                *v += add;
            }
            verify(mode, s, &what);
        }
    }
}

fn op_turn<T: Elem>(mode: Mode, s: &mut Slot<T>) {
    let (wd, ht) = (s.g.w() as usize, s.g.h() as usize);
    let k = if s.g.square() { w(4) } else { w(2) };
    let names = ["horizontal flip", "vertical flip", "clockwise turn", "counterclockwise turn"];
    let name = s.g.name();
    let what = || format!("{} of {name}", names[k as usize]);
    note(&what);
    let r = run(&what, || match k {
        0 => s.g.flip_h(),
        1 => s.g.flip_v(),
        _ => s.g.rotate(k == 2),
    });
    if let How::Own(m) = r {
        own(&what, m)
    }
    s.m = turned(&s.m, wd, ht, k);
    ev("turn", k as i64, wd as i64);
    verify(mode, s, &what);
}

/// The table after a flip or quarter turn.
pub fn turned<V: Copy>(m: &[V], wd: usize, ht: usize, k: u64) -> Vec<V> {
    let mut o = m.to_vec();
    for y in 0..ht {
        for x in 0..wd {
            let (nx, ny) = match k {
                0 => (wd - 1 - x, y),
                1 => (x, ht - 1 - y),
                2 => (wd - 1 - y, x),
                _ => (y, wd - 1 - x),
            };
            o[ny * wd + nx] = m[y * wd + x];
        }
    }
    o
}

fn op_dup<T: Elem>(mode: Mode, s: &Slot<T>) -> Option<Slot<T>> {
    let name = s.g.name();
    let what = || format!("copying {name}");
    note(&what);
    arm_for(mode, CLONE, s.m.len() as u64);
    let r = run(&what, || s.g.dup());
    verify(mode, s, &what);
    match r {
        How::Done(g) => {
            let s = Slot { g, m: s.m.clone(), s: s.s };
            verify(mode, &s, &what);
            Some(s)
        }
        How::Cut => None,
        How::Own(m) => own(&what, m),
    }
}

fn op_clone_from<T: Elem>(mode: Mode, d: &mut Slot<T>, o: &Slot<T>) {
    let name = o.g.name();
    let what = || format!("overwriting a {name} grid with a copy of another");
    note(&what);
    arm_for(mode, CLONE | DROP, d.m.len() as u64 * 2);
    match run(&what, || d.g.clone_from(&*o.g)) {
        How::Done(()) => d.m = o.m.clone(),
        How::Cut => {
            // Each cell is either the old one or the copy.
            let mut got = vec![];
            d.g.walk(0, &mut |_, t| {
                got.push(t.val());
                true
            });
            if mode.values {
                for c in 0..got.len() {
                    ensure!(
                        got[c] == d.m[c] || got[c] == o.m[c],
                        "wrong-content",
                        "cell {c} holds {} after {} was cut short, neither old {} nor new {}",
                        got[c],
                        what(),
                        d.m[c],
                        o.m[c]
                    );
                }
            }
            d.m = got;
        }
        How::Own(m) => own(&what, m),
    }
    verify(mode, d, &what);
    verify(mode, o, &what);
}

fn op_compare<T: Elem>(mode: Mode, a: &Slot<T>, b: &Slot<T>) {
    let name = a.g.name();
    let what = || format!("comparing two {name} grids");
    note(&what);
    arm_for(mode, EQ, a.m.len() as u64);
    let r = run(&what, || a.g.same(&*b.g));
    match r {
        How::Done(eq) => {
            ev("same", eq as i64, 0);
            if mode.values {
                ensure!(eq == (a.m == b.m), "wrong-equality", "{name} grids {} and {} compare as {}", show(&a.m), show(&b.m), if eq { "equal" } else { "different" });
                if eq {
                    stat("found-equal");
                    ensure!(a.g.hash() == b.g.hash(), "wrong-hash", "equal {name} grids {} hash differently", show(&a.m));
                }
                stat("checked");
            }
        }
        How::Cut => {}
        How::Own(m) => own(&what, m),
    }
    verify(mode, a, &what);
}

fn op_consume<T: Elem>(mode: Mode, s: Slot<T>) {
    let Slot { g, m, .. } = s;
    let name = g.name();
    let n = m.len();
    if wp(1, 4) {
        let what = || format!("dismantling {name}");
        note(&what);
        match run(&what, || g.inner()) {
            How::Done(v) => {
                if mode.values {
                    let v: Vec<i64> = v.iter().map(|t| t.val()).collect();
                    ensure!(v == m, "wrong-content", "{} gave {} for {}", what(), show(&v), show(&m));
                    stat("checked");
                }
            }
            How::Cut => {}
            How::Own(m) => own(&what, m),
        }
        return;
    }
    let take = if wp(1, 2) { n + 1 } else { w(n as u64 + 1) as usize };
    let dirs: u64 = w(4);
    let keep = wp(1, 2);
    let panic_at = if fp(1, 5) { Some(f(n as u64) as usize) } else { None };
    let what = || format!("consuming up to {take} cells of {name} (ends {dirs}, panic at {panic_at:?})");
    note(&what);
    let (mut lo, mut hi) = (0usize, n);
    let mut last = false;
    let mut asked = 0;
    let mut kept: Vec<T> = vec![];
    let side = Cell::new(false);
    if !keep {
        arm_for(mode, DROP, n as u64);
    }
    let r = run(&what, || {
        g.consume(
            &mut |two| {
                yp();
                if asked == take {
                    return None;
                }
                asked += 1;
                last = two
                    && match dirs {
                        0 => false,
                        1 => true,
                        _ => wp(1, 2),
                    };
                side.set(last);
                Some(last)
            },
            &mut |t| {
                if mode.values {
                    ensure!(lo < hi, "too-many-items", "{} gave more than {n} items", what());
                    let want = if side.get() { m[hi - 1] } else { m[lo] };
                    ensure!(t.val() == want, "wrong-content", "{} gave {} instead of {want}", what(), t.val());
                }
                if side.get() {
                    hi = hi.saturating_sub(1)
                } else {
                    lo += 1
                }
                if Some(lo + (n - hi)) == panic_at {
                    inject_panic("fault:panic-in-consumer");
                }
                if keep {
                    kept.push(t);
                }
            },
        )
    });
    match r {
        How::Done(()) => {
            if mode.values {
                let got = lo + (n - hi);
                ensure!(got == take.min(n), "items-missing", "{} gave only {got} items", what());
                stat("checked");
            }
        }
        How::Cut => {}
        How::Own(m) => own(&what, m),
    }
}

fn op_format<T: Elem>(mode: Mode, s: &Slot<T>) {
    let what = || format!("rendering {}", s.g.name());
    note(&what);
    arm_for(mode, FMT, s.m.len() as u64);
    let mut out = String::new();
    if let How::Own(m) = run(&what, || s.g.render(w(SPECS as u64) as usize, 3, &mut out)) {
        own(&what, m)
    }
}

fn op_neg(mode: Mode, s: Slot<Num>) -> Option<Slot<Num>> {
    let Slot { g, m, s } = s;
    let what = || format!("negating a {} grid", s.name());
    note(&what);
    arm_for(mode, NEG | DEFAULT, m.len() as u64 * 2);
    match run(&what, || g.neg()) {
        How::Done(g) => {
            let s = Slot { g, m: m.iter().map(|v| -v).collect(), s };
            verify(mode, &s, &what);
            Some(s)
        }
        How::Cut => None,
        How::Own(m) => own(&what, m),
    }
}

/* --------------------------------------------------------------------- C09 */

fn c09_client<T: Elem>(shapes: &'static [&'static dyn Shape<T>], ops: u64) {
    let mode = Mode { values: true, arm: false };
    let k = if shapes.len() < 10 || wp(1, 3) { w(shapes.len() as u64) } else { w(10) };
    let s = shapes[k as usize];
    let mut cur: Option<Slot<T>> = None;
    for _ in 0..ops {
        let what = w(8);
        match (what, &mut cur) {
            (0 | 1, _) | (_, None) => {
                if let Some(n) = op_collect(mode, s) {
                    cur = Some(n);
                }
            }
            (2, _) => {
                if let Some(n) = op_rows(mode, s) {
                    cur = Some(n);
                }
            }
            (3 | 4, Some(g)) => op_vecvec(mode, g, false),
            (_, Some(g)) => op_extend(mode, g),
        }
        if cur.is_none() && wp(1, 2) {
            cur = op_default(mode, s);
        }
        yp();
    }
    if T::COPY && wp(1, 150) {
        if cur.is_none() {
            cur = op_default(mode, s);
        }
        if let Some(g) = &mut cur {
            stat("far-outside");
            op_vecvec(mode, g, true);
        }
    }
    if let Some(g) = &cur {
        verify_as(g, 0, &|| "the end".to_string());
    }
}

pub fn c09() {
    ledger_reset();
    set_gap_scale(1 << w(7));
    let huge = wp(1, 600);
    if huge {
        stat("huge-grids");
    }
    let n = if huge { 1 } else { 1 + w(3) };
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let kind = w(5);
            let ops = if huge { 1 + w(3) } else { 2 + w(10) };
            (
                hs,
                Box::new(move || match kind {
                    0..=2 if huge => c09_client::<Num>(HUGE, ops),
                    _ if huge => bools::c09_client(true, ops),
                    0 | 1 => c09_client::<Num>(NUMS, ops),
                    2 => c09_client::<Tok>(TOKS, ops),
                    _ => bools::c09_client(false, ops),
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 4 << 20);
}

/* --------------------------------------------------------------------- C10 */

type Mail = Arc<Mutex<Baton<Vec<(Slot<Tok>, Vec<u32>)>>>>;

fn ids(s: &Slot<Tok>) -> Vec<u32> {
    let mut v = vec![];
    s.g.walk(0, &mut |_, t| {
        v.push(t.id);
        true
    });
    v
}

fn c10_client(me: usize, ops: u64, mail: Mail) {
    set_owner(me);
    let mode = Mode { values: false, arm: true };
    let mut v: Vec<Slot<Tok>> = vec![];
    let shape = |_: ()| -> &'static dyn Shape<Tok> {
        let k = if wp(1, 8) { w(TOKS.len() as u64) } else { w(11) };
        TOKS[k as usize]
    };
    for step in 0..ops {
        let op = w(18);
        let k = if v.is_empty() { 0 } else { w(v.len() as u64) as usize };
        let mut made = None;
        let name = match op {
            0 => {
                made = op_default(mode, shape(()));
                "default"
            }
            1 | 2 => {
                made = op_collect(mode, shape(()));
                "collect"
            }
            3 => {
                made = op_rows(mode, shape(()));
                "from rows"
            }
            _ if v.is_empty() => {
                // Somebody else's grid, or a new one.
                let got = mail.lock().unwrap().0.pop();
                match got {
                    Some((s, i)) => {
                        transfer(&i, me);
                        stat("handed-over");
                        made = Some(s)
                    }
                    None => made = op_default(mode, shape(())),
                }
                "receive"
            }
            4 | 5 => {
                op_extend(mode, &mut v[k]);
                "extend"
            }
            6 => {
                op_vecvec(mode, &mut v[k], false);
                "load rows"
            }
            7 => {
                op_assign(mode, &mut v[k]);
                "assign"
            }
            8 => {
                op_swap(mode, &mut v[k]);
                "exchange"
            }
            9 => {
                op_turn(mode, &mut v[k]);
                "turn"
            }
            10 => {
                made = op_dup(mode, &v[k]);
                "copy"
            }
            11 => {
                let same: Vec<usize> = (0..v.len()).filter(|j| *j != k && v[*j].g.any().type_id() == v[k].g.any().type_id()).collect();
                if !same.is_empty() {
                    let j = *pick(&same);
                    let o = v.swap_remove(j.max(k));
                    let mut o2 = v.swap_remove(j.min(k));
                    op_clone_from(mode, &mut o2, &o);
                    v.push(o2);
                    v.push(o);
                } else {
                    made = op_dup(mode, &v[k]);
                }
                "overwrite with a copy"
            }
            12 | 13 => {
                let s = v.swap_remove(k);
                op_consume(mode, s);
                "consume"
            }
            14 => {
                let s = v.swap_remove(k);
                note(|| format!("drop {}", s.g.name()));
                arm_for(mode, DROP, s.m.len() as u64);
                if let How::Own(m) = run(&|| "dropping a grid".into(), move || drop(s)) {
                    own(&|| "dropping a grid".into(), m)
                }
                "drop"
            }
            15 => {
                op_format(mode, &v[k]);
                "render"
            }
            16 => {
                let s = v.swap_remove(k);
                let i = ids(&s);
                transfer(&i, 99);
                mail.lock().unwrap().0.push((s, i));
                "hand over"
            }
            _ => {
                let got = mail.lock().unwrap().0.pop();
                if let Some((s, i)) = got {
                    transfer(&i, me);
                    stat("handed-over");
                    made = Some(s)
                }
                "receive"
            }
        };
        v.extend(made);
        let mut reach = vec![];
        for s in &v {
            reach.extend(ids(s));
        }
        ev("step", op as i64, reach.len() as i64);
        audit(me, &reach, &|| format!("after step {step} ({name})"));
        stat("checked");
        if v.len() > 4 {
            v.remove(0);
        }
        yp();
    }
    drop(v);
    audit(me, &[], &|| "after the client dropped its grids".into());
}

pub fn c10() {
    ledger_reset();
    set_gap_scale(1 << w(8));
    let mail: Mail = Arc::new(Mutex::new(Baton(vec![])));
    let n = 1 + w(3);
    let tasks = (0..n)
        .map(|k| {
            let hs = w(1 << 32);
            let ops = 3 + w(22);
            let m = mail.clone();
            (hs, Box::new(move || c10_client(k as usize + 1, ops, m)) as Task)
        })
        .collect();
    run_tasks(tasks, 4 << 20);
    let rest = std::mem::take(&mut mail.lock().unwrap().0);
    drop(rest);
    ensure!(all_alive() == 0, "leaked", "{} elements are still alive when every grid is gone", all_alive());
}

/* --------------------------------------------------------------------- C11 */

type Pool<T> = Arc<Mutex<Baton<Vec<Slot<T>>>>>;

fn take<T>(p: &Pool<T>) -> Option<Slot<T>> {
    let mut g = p.lock().unwrap();
    let n = g.0.len();
    if n == 0 {
        return None;
    }
    let k = w(n as u64) as usize;
    Some(g.0.swap_remove(k))
}
/// Another grid of the same shape.
fn take_like<T: Elem>(p: &Pool<T>, s: &Slot<T>) -> Option<Slot<T>> {
    let mut g = p.lock().unwrap();
    let same: Vec<usize> = (0..g.0.len()).filter(|j| g.0[*j].g.any().type_id() == s.g.any().type_id()).collect();
    if same.is_empty() {
        return None;
    }
    let k = *pick(&same);
    Some(g.0.swap_remove(k))
}
fn give<T>(p: &Pool<T>, s: Slot<T>) {
    let over = {
        let mut g = p.lock().unwrap();
        g.0.push(s);
        if g.0.len() > 7 {
            Some(g.0.remove(0))
        } else {
            None
        }
    };
    drop(over);
}

fn c11_client<T: Elem>(pool: Pool<T>, shapes: &'static [&'static dyn Shape<T>], ks: [usize; 2], ops: u64, neg: fn(Mode, Slot<T>) -> Option<Slot<T>>) {
    let mode = Mode { values: true, arm: true };
    for _ in 0..ops {
        let op = w(20);
        let s = shapes[ks[w(2) as usize]];
        if op < 2 {
            let made = match w(4) {
                0 | 1 => op_default(mode, s),
                2 => op_collect(mode, s),
                _ => op_rows(mode, s),
            };
            if let Some(x) = made {
                give(&pool, x);
            }
            yp();
            continue;
        }
        let Some(mut x) = take(&pool) else {
            if let Some(x) = op_default(mode, s) {
                give(&pool, x);
            }
            yield_blocked();
            continue;
        };
        match op {
            2..=4 => op_assign(mode, &mut x),
            5 | 6 => op_swap(mode, &mut x),
            7..=9 => op_turn(mode, &mut x),
            10 => op_extend(mode, &mut x),
            11 => op_vecvec(mode, &mut x, false),
            12 | 13 => {
                if let Some(d) = op_dup(mode, &x) {
                    stat("snapshots");
                    give(&pool, d);
                }
            }
            14 => {
                if let Some(mut o) = take_like(&pool, &x) {
                    op_clone_from(mode, &mut o, &x);
                    give(&pool, o);
                }
            }
            15 | 16 => {
                if let Some(o) = take_like(&pool, &x) {
                    op_compare(mode, &x, &o);
                    give(&pool, o);
                }
            }
            17 if T::COPY => {
                if let Some(n) = neg(mode, x) {
                    give(&pool, n);
                }
                yp();
                continue;
            }
            18 if wp(1, 2) => {
                op_consume(mode, x);
                yp();
                continue;
            }
            _ => {
                // Just look, slowly.
                let how = w(3);
                let stop = if wp(1, 2) { u32::MAX } else { w(x.m.len() as u64) as u32 };
                x.g.walk(how, &mut |c, t| {
                    yp();
                    ensure!(
                        (c as usize) < x.m.len() && t.val() == x.m[c as usize],
                        "wrong-content",
                        "walk {how} shows {} at cell {c} of {}; table {}",
                        t.val(),
                        x.g.name(),
                        show(&x.m)
                    );
                    c != stop
                });
            }
        }
        give(&pool, x);
        yp();
    }
}

fn c11_run<T: Elem>(shapes: &'static [&'static dyn Shape<T>], huge: bool, neg: fn(Mode, Slot<T>) -> Option<Slot<T>>) {
    let pick_shape = || if huge || wp(1, 6) { w(shapes.len() as u64) as usize } else { w(13) as usize };
    let ks = [pick_shape(), pick_shape()];
    let pool: Pool<T> = Arc::new(Mutex::new(Baton(vec![])));
    let n = if huge { 1 + w(2) } else { 1 + w(3) };
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = if huge { 3 + w(4) } else { 4 + w(40) };
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    c11_client(p.into(), shapes, ks, ops, neg)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, if huge { 32 << 20 } else { 4 << 20 });
    let rest = std::mem::take(&mut pool.lock().unwrap().0);
    for s in &rest {
        for how in if huge { 2..5 } else { 0..10 } {
            verify_as(s, how, &|| "the end".to_string());
        }
    }
}

pub fn c11() {
    ledger_reset();
    set_gap_scale(1 << w(8));
    if wp(1, 3) {
        c11_run::<Tok>(TOKS, false, |_, _| None)
    } else if wp(1, 400) {
        stat("huge-grids");
        c11_run::<Num>(HUGE, true, op_neg)
    } else {
        c11_run::<Num>(NUMS, false, op_neg)
    }
}
