//! C16: the bounding box of a stream of positions.
//!
//! Producers put positions on a shared belt; clients take them off it through
//! streams of their own, handed to the library. Each position reaches one
//! client, so each box is judged against what that client was handed, and the
//! boxes together against everything that went over the belt.

use crate::walk::{fresh_space, It, Space};
use simcore::*;
use sqrid::Error;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

struct Belt {
    items: VecDeque<It>,
    producers: u64,
    /// Handed over, with the box (if any) that accounts for each.
    handed: Vec<It>,
    covered: Vec<(It, It)>,
    lost: Vec<It>,
}
type Shared = Arc<Mutex<Baton<Belt>>>;

/// Offset of a coordinate from its lowest value; 128-bit codes wrap.
fn off(v: i128, lo: i128) -> u128 {
    v.wrapping_sub(lo) as u128
}

fn model(sp: &dyn Space, v: &[It]) -> Option<(It, It)> {
    let (bx, by) = sp.bounds();
    Some((
        (v.iter().map(|i| i.0).min_by_key(|x| off(*x, bx.0))?, v.iter().map(|i| i.1).min_by_key(|y| off(*y, by.0))?),
        (v.iter().map(|i| i.0).max_by_key(|x| off(*x, bx.0))?, v.iter().map(|i| i.1).max_by_key(|y| off(*y, by.0))?),
    ))
}

/// A coordinate, often at an edge.
fn coord(b: (i128, i128)) -> i128 {
    let room = off(b.1, b.0);
    match w(5) {
        0 => b.0,
        1 => b.1,
        2 => b.0.wrapping_add((w(6) as u128).min(room) as i128),
        3 => b.1.wrapping_sub((w(6) as u128).min(room) as i128),
        _ => b.0.wrapping_add((w(1 << 40) as u128 % room.saturating_add(1).min(1 << 100)) as i128),
    }
}

/// Positions as a user might gather them: scattered, drifting one way, in a
/// line, all the same.
fn batch(sp: &dyn Space, n: u64) -> Vec<It> {
    let (bx, by) = sp.bounds();
    let mut p = (coord(bx), coord(by));
    let how = w(6);
    let (dx, dy) = (w(3) as i128 - 1, w(3) as i128 - 1);
    let slide = |v: i128, d: i128, b: (i128, i128)| {
        if d > 0 && v != b.1 || d < 0 && v != b.0 {
            v.wrapping_add(d)
        } else {
            v
        }
    };
    (0..n)
        .map(|_| {
            let q = p;
            p = match how {
                0 | 1 => (coord(bx), coord(by)),
                2 => (slide(p.0, dx, bx), slide(p.1, dy, by)),
                3 => (p.0, coord(by)),
                4 => (coord(bx), p.1),
                _ => p,
            };
            q
        })
        .collect()
}

fn shown(r: &Result<(It, It), Error>) -> String {
    match r {
        Ok((a, b)) => format!("{a:?}-{b:?}"),
        Err(e) => format!("{e:?}"),
    }
}

/// `ended`: the stream was asked until it said that it was finished.
fn judge(sp: &dyn Space, v: &[It], got: Result<(It, It), Error>, ended: bool, what: &str) {
    let want = model(sp, v);
    if !ended {
        // Fine only where nothing can change the answer any more.
        let (bx, by) = sp.bounds();
        ensure!(
            want == Some(((bx.0, by.0), (bx.1, by.1))),
            "stopped-early",
            "box of {what} on {} is {} without having asked for all of it, after {} positions: {:?}",
            sp.name(),
            shown(&got),
            v.len(),
            &v[..v.len().min(40)]
        );
        stat("full-early");
    }
    let ok = match (&got, &want) {
        (Ok(g), Some(w)) => g == w,
        (Err(Error::Empty), None) => true,
        _ => false,
    };
    ensure!(
        ok,
        "wrong-box",
        "box of {what} on {} is {} instead of {want:?}, after {} positions: {:?}",
        sp.name(),
        shown(&got),
        v.len(),
        &v[..v.len().min(40)]
    );
    stat("checked");
    stat(if want.is_some() { "boxes" } else { "empty-boxes" });
    if let Some(b) = want {
        membership(sp, v, b);
    }
}

/// What counts as inside the box, whichever opposite corners name it.
fn membership(sp: &dyn Space, v: &[It], (tl, br): (It, It)) {
    let (bx, by) = sp.bounds();
    let p = match w(6) {
        0 | 1 => v[w(v.len() as u64) as usize],
        2 => (coord(bx), coord(by)),
        k => {
            // Next to an edge of the box, on either side.
            let near = |v: i128, b: (i128, i128)| match w(3) {
                0 if v != b.0 => v.wrapping_sub(1),
                1 if v != b.1 => v.wrapping_add(1),
                _ => v,
            };
            let c = *pick(&[tl, br, (tl.0, br.1), (br.0, tl.1)]);
            match k {
                3 => (near(c.0, bx), c.1),
                4 => (c.0, near(c.1, by)),
                _ => (near(c.0, bx), near(c.1, by)),
            }
        }
    };
    let within = |v: i128, lo: i128, hi: i128, b: i128| off(v, b) >= off(lo, b) && off(v, b) <= off(hi, b);
    let want = within(p.0, tl.0, br.0, bx.0) && within(p.1, tl.1, br.1, by.0);
    let (c, d) = *pick(&[(tl, br), (br, tl), ((tl.0, br.1), (br.0, tl.1)), ((br.0, tl.1), (tl.0, br.1))]);
    let got = match call(|| sp.inside(p, c, d)) {
        Call::Done(x) => x,
        Call::Panicked(m) => fail("library-panic", format!("whether {p:?} is inside {c:?}-{d:?} on {} panicked: {m}", sp.name())),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    };
    ev("inside", p.0 as i64, got as i64);
    ensure!(got == want, "wrong-membership", "{p:?} on {} counts as {} the box with corners {c:?} and {d:?}", sp.name(), if got { "inside" } else { "outside" });
    stat(if got { "inside" } else { "outside" });
}

/// A small box of its own, computed wherever the caller happens to be.
fn aside(sp: &dyn Space, why: &str) {
    let n = w(4);
    let v = batch(sp, n);
    let mut i = 0;
    let how = w(4);
    let got = match call(|| {
        sp.bbox(how, (v.len(), Some(v.len())), &mut || {
            i += 1;
            v.get(i - 1).copied()
        })
    }) {
        Call::Done(g) => g,
        Call::Panicked(m) => fail("library-panic", format!("box of {v:?} ({why}) panicked: {m}")),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    };
    judge(sp, &v, got, i > v.len(), why);
}

/// One stream off the belt, and the box of what it delivered.
fn one_box(sp: &'static dyn Space, belt: &Shared, most: u64) -> bool {
    let how = w(4);
    let until = if wp(1, 3) { w(most + 1) } else { u64::MAX };
    // Faults of the caller's stream.
    let boom = if fp(1, 6) { f(most + 1) } else { u64::MAX };
    let cut = if fp(1, 6) { f(most + 1) } else { u64::MAX };
    let reenter = if fp(1, 6) { f(most + 1) } else { u64::MAX };
    let stall = if fp(1, 6) { f(most + 1) } else { u64::MAX };
    let hint = if fp(1, 5) {
        fault_fired("fault:lying-size-hint");
        match f(4) {
            0 => (0, Some(0)),
            1 => (usize::MAX, None),
            2 => (usize::MAX, Some(usize::MAX)),
            _ => (5, Some(3)),
        }
    } else {
        (0, None)
    };
    let mut got_here: Vec<It> = vec![];
    let mut dry = false;
    let mut over = false;
    let mut late: Vec<It> = vec![];
    note(|| format!("box (way {how}) of up to {until} positions, panic at {boom}, cut at {cut}, re-entry at {reenter}, stall at {stall}"));
    let r = call(|| {
        sp.bbox(how, hint, &mut || {
            yp();
            let k = got_here.len() as u64;
            if over {
                // It ended before; asked again, it talks on.
                fault_fired("fault:talks-on-after-end");
                let i = belt.lock().unwrap().0.items.pop_front();
                if let Some(i) = i {
                    belt.lock().unwrap().0.handed.push(i);
                    late.push(i);
                }
                return i;
            }
            if k == boom {
                inject_panic("fault:panic-in-stream");
            }
            if k == cut || k == until {
                if k == cut {
                    fault_fired("fault:ends-early");
                }
                over = true;
                return None;
            }
            if k == reenter {
                fault_fired("fault:re-entry");
                aside(sp, "a stream's own positions, from inside it");
            }
            if k == stall {
                fault_fired("fault:stall");
                sleep(1 + w(40));
            }
            loop {
                {
                    let mut g = belt.lock().unwrap();
                    if let Some(i) = g.0.items.pop_front() {
                        g.0.handed.push(i);
                        got_here.push(i);
                        return Some(i);
                    }
                    if g.0.producers == 0 {
                        dry = true;
                        return None;
                    }
                }
                sleep(1 + w(3));
            }
        })
    });
    let mut g = belt.lock().unwrap();
    g.0.lost.extend(late);
    match r {
        Call::Done(got) => {
            ev("box", got_here.len() as i64, got.is_ok() as i64);
            if let Ok(b) = got {
                g.0.covered.push(b);
            }
            drop(g);
            judge(sp, &got_here, got, over || dry, "a stream");
            dry
        }
        Call::Injected(k) => {
            ev("box-lost", got_here.len() as i64, 0);
            g.0.lost.extend(got_here);
            drop(g);
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised", last_fault());
            stat("continued-after-panic");
            false
        }
        Call::Panicked(m) => {
            drop(g);
            fail("library-panic", format!("box of a stream on {} panicked: {m}, after {got_here:?}", sp.name()))
        }
    }
}

pub fn c16() {
    set_gap_scale(1 << w(5));
    let sp = fresh_space();
    let np = 1 + w(2);
    let nc = 1 + w(3);
    let belt: Shared = Arc::new(Mutex::new(Baton(Belt { items: VecDeque::new(), producers: np, handed: vec![], covered: vec![], lost: vec![] })));
    let long = wp(1, 30);
    let most = if long { 400 } else { 12 };
    let mut tasks: Vec<(u64, Task)> = vec![];
    for _ in 0..np {
        let hs = w(1 << 32);
        let batches = w(4);
        let b = Baton(belt.clone());
        tasks.push((
            hs,
            Box::new(move || {
                let belt: Shared = b.into();
                for _ in 0..batches {
                    let n = w(most + 1);
                    for i in batch(sp, n) {
                        belt.lock().unwrap().0.items.push_back(i);
                        if wp(1, 3) {
                            yp();
                        }
                    }
                    if wp(1, 3) {
                        sleep(w(30));
                    }
                }
                belt.lock().unwrap().0.producers -= 1;
            }),
        ));
    }
    for _ in 0..nc {
        let hs = w(1 << 32);
        let b = Baton(belt.clone());
        tasks.push((
            hs,
            Box::new(move || {
                let belt: Shared = b.into();
                for _ in 0..40 {
                    yp();
                    if wp(1, 8) {
                        whole_range(sp);
                        continue;
                    }
                    if one_box(sp, &belt, most) {
                        break;
                    }
                }
            }),
        ));
    }
    run_tasks(tasks, 2 << 20);
    // Progress once the faults are over: one more box takes all that is left.
    let left: Vec<It> = std::mem::take(&mut belt.lock().unwrap().0.items).into();
    let mut i = 0;
    match call(|| {
        sp.bbox(0, (0, None), &mut || {
            i += 1;
            left.get(i - 1).copied()
        })
    }) {
        Call::Done(r) => {
            let mut g = belt.lock().unwrap();
            g.0.handed.extend(left.iter().copied());
            if let Ok(b) = r {
                g.0.covered.push(b);
            }
            drop(g);
            judge(sp, &left, r, i > left.len(), "what was left");
        }
        Call::Panicked(m) => fail("library-panic", format!("box of {left:?} panicked: {m}")),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    }
    // The boxes' corners, as a stream, have the box of everything.
    let (covered, handed, lost) = {
        let g = belt.lock().unwrap();
        (g.0.covered.clone(), g.0.handed.clone(), g.0.lost.clone())
    };
    let corners: Vec<It> = covered.iter().flat_map(|b| [b.0, b.1]).collect();
    let mut i = 0;
    let got = match call(|| {
        sp.bbox(w(4), (0, None), &mut || {
            i += 1;
            corners.get(i - 1).copied()
        })
    }) {
        Call::Done(r) => r,
        Call::Panicked(m) => fail("library-panic", format!("box of {corners:?} panicked: {m}")),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    };
    let mut rest = handed;
    for l in lost {
        let k = rest.iter().position(|i| *i == l);
        rest.swap_remove(k.expect("handed"));
    }
    judge(sp, &rest, got, true, "all boxes' corners");
    ev("all", rest.len() as i64, corners.len() as i64);
}

/// The library's own rectangle, streamed back into a box.
fn whole_range(sp: &dyn Space) {
    let (bx, by) = sp.bounds();
    let span = |b: (i128, i128)| {
        let room = off(b.1, b.0);
        let n = (w(5) as u128).min(room);
        let a = match w(3) {
            0 => b.0,
            1 => b.1.wrapping_sub(n as i128),
            _ => b.0.wrapping_add((w(1 << 30) as u128).min(room - n) as i128),
        };
        (a, a.wrapping_add(n as i128))
    };
    let (x, y) = (span(bx), span(by));
    let got = match call(|| sp.bbox_range((x.0, y.0), (x.1, y.1), w(3))) {
        Call::Done(r) => r,
        Call::Panicked(m) => fail("library-panic", format!("box of the rectangle {x:?} {y:?} on {} panicked: {m}", sp.name())),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    };
    ev("rectangle", got.is_ok() as i64, 0);
    judge(sp, &[(x.0, y.0), (x.1, y.1)], got, true, "a rectangle's positions");
}
