//! C15: storage back-ends against one table.

use crate::objs::*;
use simcore::cells::arm_pos_fuse;
use simcore::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

struct Maps {
    v: Vec<(&'static str, Box<dyn MapObj>)>,
    init: i64,
    m: BTreeMap<u32, i64>,
}
struct Sets {
    v: Vec<(&'static str, Box<dyn SetObj>)>,
    m: BTreeMap<u32, bool>,
}
enum Fam {
    Map(Maps),
    Set(Sets),
}

/// A read that position code may cut short.
fn read<R>(touchy: bool, what: &dyn Fn() -> String, body: impl FnOnce() -> R) -> Option<R> {
    let armed = touchy && fp(1, 4);
    if armed {
        arm_pos_fuse(1 + f(6));
    }
    let r = call(body);
    arm_pos_fuse(0);
    match r {
        Call::Done(r) => Some(r),
        Call::Injected(k) => {
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {}", last_fault(), what());
            stat("interrupted-reads");
            None
        }
        Call::Panicked(m) => fail("library-panic", format!("{} panicked: {m}", what())),
    }
}
fn write(what: &dyn Fn() -> String, body: impl FnOnce()) {
    if let Err(k) = call_np("library-panic", &what(), body) {
        fail("harness", format!("unexpected injected panic #{k}"));
    }
}

fn check_map(s: &'static dyn Stores, m: &Maps, c: u32) {
    for (name, o) in &m.v {
        let what = || format!("reading cell {c} from the {name} map on {}", s.name());
        if let Some(got) = read(s.touchy(), &what, || o.get(c)) {
            let want = m.m.get(&c).copied().unwrap_or(m.init);
            ensure!(got == want, "wrong-read", "{} gives {got} instead of {want}; written {:?}, initial {}", what(), m.m, m.init);
            stat("checked");
        }
    }
}
fn check_set(s: &'static dyn Stores, m: &Sets, c: u32) {
    for (name, o) in &m.v {
        let what = || format!("looking up cell {c} in the {name} set on {}", s.name());
        if let Some(got) = read(s.touchy(), &what, || o.contains(c)) {
            let want = m.m.get(&c).copied().unwrap_or(false);
            ensure!(got == want, "wrong-membership", "{} gives {got}; history {:?}", what(), m.m);
            stat("checked");
        }
    }
}

fn fresh(s: &'static dyn Stores) -> Fam {
    // Every back-end with its own hash keys.
    let mut rekey = || set_hash_seed(w(1 << 32));
    if wp(1, 2) {
        let init = w(5) as i64 - 1;
        note(|| format!("new maps on {} with {init}", s.name()));
        Fam::Map(Maps {
            v: s.maps(init, &mut rekey),
            init,
            m: BTreeMap::new(),
        })
    } else {
        note(|| format!("new sets on {}", s.name()));
        Fam::Set(Sets {
            v: s.sets(&mut rekey),
            m: BTreeMap::new(),
        })
    }
}

fn client(s: &'static dyn Stores, pool: Arc<Mutex<Baton<Vec<Fam>>>>, ops: u64) {
    let n = s.w() * s.h();
    // Few cells make histories collide; the last cells matter most.
    let span = if wp(1, 2) { n } else { 1 + w(n as u64) as u32 };
    let cell = || if wp(1, 6) { n - 1 - w(span.min(3) as u64) as u32 % n } else { w(span as u64) as u32 };
    for _ in 0..ops {
        let fam = {
            let mut g = pool.lock().unwrap();
            let k = g.0.len() as u64;
            if k == 0 {
                None
            } else {
                let k = w(k) as usize;
                Some(g.0.swap_remove(k))
            }
        };
        let mut fam = match fam {
            Some(f) => f,
            None => fresh(s),
        };
        let steps = 1 + w(6);
        for _ in 0..steps {
            let c = cell();
            match &mut fam {
                Fam::Map(m) => {
                    match w(8) {
                        0..=3 => {
                            let v = w(6) as i64 - 1;
                            note(|| format!("set {c} to {v}"));
                            for (name, o) in &mut m.v {
                                write(&|| format!("writing to the {name} map on {}", s.name()), || o.set(c, v));
                            }
                            m.m.insert(c, v);
                            ev("set", c as i64, v);
                            check_map(s, m, c);
                        }
                        4 => {
                            // Work on with a copy, or keep both.
                            let d = Maps {
                                v: m.v.iter().map(|(n, o)| (*n, o.dup())).collect(),
                                init: m.init,
                                m: m.m.clone(),
                            };
                            stat("copies");
                            let old = std::mem::replace(m, d);
                            let mut g = pool.lock().unwrap();
                            g.0.push(Fam::Map(old));
                        }
                        _ => check_map(s, m, c),
                    }
                }
                Fam::Set(m) => match w(9) {
                    0..=4 => {
                        let add = wp(3, 5);
                        let way = w(2);
                        note(|| format!("{} {c}", if add { "insert" } else { "remove" }));
                        for (name, o) in &mut m.v {
                            write(&|| format!("writing to the {name} set on {}", s.name()), || match (way, add) {
                                (0, _) => o.set(c, add),
                                (_, true) => o.insert(c),
                                (_, false) => o.remove(c),
                            });
                        }
                        m.m.insert(c, add);
                        ev("mark", c as i64, add as i64);
                        check_set(s, m, c);
                    }
                    5 => {
                        let d = Sets {
                            v: m.v.iter().map(|(n, o)| (*n, o.dup())).collect(),
                            m: m.m.clone(),
                        };
                        stat("copies");
                        let old = std::mem::replace(m, d);
                        let mut g = pool.lock().unwrap();
                        g.0.push(Fam::Set(old));
                    }
                    _ => check_set(s, m, c),
                },
            }
            yp();
        }
        let mut g = pool.lock().unwrap();
        if g.0.len() < 6 {
            g.0.push(fam);
        }
        drop(g);
        yp();
    }
}

pub fn c15() {
    set_gap_scale(1 << w(7));
    let huge = wp(1, 800);
    let s = if huge {
        stat("huge-grids");
        *pick(HUGE_STORES)
    } else {
        *pick(STORES)
    };
    let pool = Arc::new(Mutex::new(Baton(vec![fresh(s)])));
    let n = 1 + w(3);
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 3 + w(12);
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    client(s, p.into(), ops)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, if huge { 32 << 20 } else { 4 << 20 });
    let rest = std::mem::take(&mut pool.lock().unwrap().0);
    for f in &rest {
        for c in 0..s.w() * s.h() {
            match f {
                Fam::Map(m) => check_map(s, m, c),
                Fam::Set(m) => check_set(s, m, c),
            }
        }
    }
}
