//! Cell values driven by the simulator: an owned one whose every birth and
//! death is booked in a ledger, and a plain copyable one. Both can panic on
//! cue in every piece of code a user may write for an element type.

use simcore::*;
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Mutex;

pub const CLONE: u8 = 1;
pub const DEFAULT: u8 = 2;
pub const EQ: u8 = 4;
pub const DROP: u8 = 8;
pub const NEG: u8 = 16;
pub const FMT: u8 = 32;
pub const STREAM: u8 = 64;

thread_local! {
    /// (calls left before a panic, kinds of call that count)
    static FUSE: Cell<(u64, u8)> = const { Cell::new((0, 0)) };
}
pub fn arm(n: u64, mask: u8) {
    FUSE.with(|f| f.set((n, mask)));
}
pub fn disarm() {
    let _ = FUSE.try_with(|f| f.set((0, 0)));
    let _ = INSIDE.try_with(|f| f.set(None));
}
thread_local! {
    /// (calls left, kinds of call that count, what to do): caller-supplied
    /// code that itself uses the library.
    static INSIDE: Cell<Option<(u64, u8, fn())>> = const { Cell::new(None) };
}
pub fn arm_inside(n: u64, mask: u8, what: fn()) {
    INSIDE.with(|f| f.set(Some((n, mask, what))));
}
fn inside(kind: u8) {
    let Some((n, mask, what)) = INSIDE.with(|f| f.get()) else { return };
    if mask & kind == 0 {
        return;
    }
    INSIDE.with(|f| f.set(if n > 1 { Some((n - 1, mask, what)) } else { None }));
    if n <= 1 {
        let fuse = FUSE.with(|f| f.replace((0, 0)));
        let own = owner();
        what();
        set_owner(own);
        FUSE.with(|f| f.set(fuse));
    }
}
/// A stream was asked for an item.
pub fn stream_touch() {
    yp();
    inside(STREAM);
}
fn touch(kind: u8, name: &'static str) {
    if !in_run() || std::thread::panicking() {
        return;
    }
    yp();
    inside(kind);
    let (n, mask) = FUSE.with(|f| f.get());
    if n > 0 && mask & kind != 0 {
        FUSE.with(|f| f.set((n - 1, mask)));
        if n == 1 {
            inject_panic(name);
        }
    }
}

/// Value a defaulted element has (never zero, so that zeroed memory shows).
pub const DEF: i64 = -7;

pub trait Elem: Default + Clone + PartialEq + Eq + Hash + fmt::Display + fmt::Debug + 'static {
    fn make(v: i64) -> Self;
    fn val(&self) -> i64;
    /// Change the value in place, as user code does through `&mut`.
    fn put(&mut self, v: i64);
    const COPY: bool = false;
    /// A copyable element that lives for ever (values 0..256).
    fn pooled(_v: i64) -> &'static Self {
        unreachable!()
    }
}

/* ------------------------------------------------------------------ ledger */

struct Entry {
    owner: usize,
    alive: bool,
}
static LEDGER: Mutex<Vec<Entry>> = Mutex::new(Vec::new());
thread_local! {
    static OWNER: Cell<usize> = const { Cell::new(0) };
}
fn ledger<R>(f: impl FnOnce(&mut Vec<Entry>) -> R) -> R {
    f(&mut LEDGER.lock().unwrap_or_else(|p| p.into_inner()))
}
pub fn ledger_reset() {
    ledger(|l| l.clear());
    set_owner(0);
}
pub fn set_owner(o: usize) {
    OWNER.with(|c| c.set(o));
}
pub fn owner() -> usize {
    OWNER.with(|c| c.get())
}
/// Elements alive that belong to `o`.
pub fn alive(o: usize) -> Vec<u32> {
    ledger(|l| {
        l.iter()
            .enumerate()
            .filter(|(_, e)| e.alive && e.owner == o)
            .map(|(i, _)| i as u32)
            .collect()
    })
}
pub fn all_alive() -> usize {
    ledger(|l| l.iter().filter(|e| e.alive).count())
}
pub fn transfer(ids: &[u32], to: usize) {
    ledger(|l| {
        for i in ids {
            l[*i as usize].owner = to;
        }
    })
}
/// What is alive must be exactly what can be reached.
pub fn audit(o: usize, reachable: &[u32], what: &dyn Fn() -> String) {
    let mut seen = HashSet::new();
    for i in reachable {
        let ok = ledger(|l| l.get(*i as usize).is_some_and(|e| e.alive));
        ensure!(ok, "dropped-too-early", "element #{i} is still in a grid but was already dropped; {}", what());
        ensure!(seen.insert(*i), "duplicated", "element #{i} sits in two cells at once; {}", what());
    }
    for i in alive(o) {
        ensure!(seen.contains(&i), "leaked", "element #{i} left its grid but was never dropped; {}", what());
    }
}

/* --------------------------------------------------------------------- Tok */

/// Owned element.
#[derive(Debug)]
pub struct Tok {
    pub id: u32,
    v: i64,
}
fn born() -> u32 {
    let o = owner();
    ledger(|l| {
        l.push(Entry { owner: o, alive: true });
        l.len() as u32 - 1
    })
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !in_run() {
            return;
        }
        let id = self.id as usize;
        let was = ledger(|l| match l.get_mut(id) {
            Some(e) => std::mem::replace(&mut e.alive, false),
            None => false,
        });
        if !was {
            fail_soft("dropped-twice", format!("element #{id} was dropped twice, or never existed"));
            return;
        }
        touch(DROP, "fault:panic-in-drop");
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        touch(CLONE, "fault:panic-in-clone");
        Tok { id: born(), v: self.v }
    }
}
impl Default for Tok {
    fn default() -> Self {
        touch(DEFAULT, "fault:panic-in-default");
        Tok { id: born(), v: DEF }
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        touch(EQ, "fault:panic-in-eq");
        self.v == o.v
    }
}
impl Eq for Tok {}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        touch(FMT, "fault:panic-in-element-format");
        text_of(self.v, f)
    }
}
impl Elem for Tok {
    fn make(v: i64) -> Self {
        Tok { id: born(), v }
    }
    fn val(&self) -> i64 {
        self.v
    }
    fn put(&mut self, v: i64) {
        self.v = v
    }
}

/* --------------------------------------------------------------------- Num */

/// Copyable element.
#[derive(Clone, Copy, Debug)]
pub struct Num(pub i64);
impl Default for Num {
    fn default() -> Self {
        touch(DEFAULT, "fault:panic-in-default");
        Num(DEF)
    }
}
impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        touch(EQ, "fault:panic-in-eq");
        self.0 == o.0
    }
}
impl Eq for Num {}
impl Hash for Num {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl std::ops::Neg for Num {
    type Output = Num;
    fn neg(self) -> Num {
        touch(NEG, "fault:panic-in-neg");
        Num(-self.0)
    }
}
impl fmt::Display for Num {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        touch(FMT, "fault:panic-in-element-format");
        text_of(self.0, f)
    }
}
static POOLED: [Num; 256] = {
    let mut a = [Num(0); 256];
    let mut i = 0;
    while i < 256 {
        a[i] = Num(i as i64);
        i += 1;
    }
    a
};
impl Elem for Num {
    const COPY: bool = true;
    fn pooled(v: i64) -> &'static Num {
        &POOLED[v as usize]
    }
    fn make(v: i64) -> Self {
        Num(v)
    }
    fn val(&self) -> i64 {
        self.0
    }
    fn put(&mut self, v: i64) {
        self.0 = v
    }
}

/// An element's own rendering: varied length, some of it not ASCII, and
/// written in several pieces.
pub fn text(v: i64) -> String {
    match v.rem_euclid(77) {
        4 => return "0123456789".repeat(1 + (v.unsigned_abs() % 29) as usize),
        5 => return format!("{v}\n{v}"),
        6 => return "  ".into(),
        _ => {}
    }
    match v.rem_euclid(11) {
        0 => String::new(),
        1 => "é".into(),
        2 => "→x".into(),
        3 => format!("<{v}>"),
        _ => v.to_string(),
    }
}
fn text_of(v: i64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let t = text(v);
    for c in t.chars() {
        f.write_str(&c.to_string())?;
    }
    Ok(())
}

/* ------------------------------------------------------------------ stream */

/// A stream of values that may panic part-way, lies about its length, and
/// keeps talking after its end.
pub struct Stream<I, F> {
    items: std::vec::IntoIter<I>,
    /// Items still to deliver before the panic (None: no panic).
    fuse: Option<usize>,
    hint: (usize, Option<usize>),
    /// Items given away after the end was reported.
    encore: F,
    ended: bool,
    /// Items handed out so far (not counting encores).
    delivered: Rc<Cell<usize>>,
}
pub fn stream<I, F: FnMut() -> Option<I>>(items: Vec<I>, fuse: Option<usize>, hint: (usize, Option<usize>), delivered: Rc<Cell<usize>>, encore: F) -> Stream<I, F> {
    Stream {
        items: items.into_iter(),
        fuse,
        hint,
        encore,
        ended: false,
        delivered,
    }
}
impl<I, F: FnMut() -> Option<I>> Iterator for Stream<I, F> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        stream_touch();
        if let Some(k) = self.fuse {
            if k == 0 {
                self.fuse = None;
                inject_panic("fault:panic-in-stream");
            }
            self.fuse = Some(k - 1);
        }
        if self.ended {
            let e = (self.encore)();
            if e.is_some() {
                fault_fired("fault:items-after-the-end");
            }
            return e;
        }
        match self.items.next() {
            Some(i) => {
                self.delivered.set(self.delivered.get() + 1);
                Some(i)
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// Conversion to an iterator that may itself panic.
pub struct Lazy<I>(pub I, pub bool);
impl<I: Iterator> IntoIterator for Lazy<I> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I {
        yp();
        if self.1 {
            inject_panic("fault:panic-in-into-iter");
        }
        self.0
    }
}

/// A size hint that is anything but right.
pub fn lying_hint(n: usize) -> (usize, Option<usize>) {
    match f(6) {
        0 | 1 => (n, Some(n)),
        2 => {
            fault_fired("fault:lying-size-hint");
            (0, Some(0))
        }
        3 => {
            fault_fired("fault:lying-size-hint");
            (n + f(2000) as usize, None)
        }
        4 => {
            fault_fired("fault:lying-size-hint");
            (n / 2, Some(n / 2))
        }
        _ => (0, None),
    }
}
