//! C14: position, coordinate and direction iteration.

use simcore::cells::SimPos;
use simcore::*;
use sqrid::*;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

pub type It = (i128, i128);

/// Coordinates as plain numbers (128-bit ones wrap, consistently).
pub trait Ax: BoundedInt + 'static {
    fn code(self) -> i128;
    fn of(v: i128) -> Self {
        match Self::try_from(v) {
            Ok(x) => x,
            Err(_) => match Self::try_from(v as u128) {
                Ok(x) => x,
                Err(_) => fail("coordinate-refused", format!("{v} refused as a coordinate inside its range")),
            },
        }
    }
}
macro_rules! ax {
    ($($t:ty)*) => { $(impl Ax for $t { fn code(self) -> i128 { self as i128 } })* };
}
ax!(u8 u16 u32 u64 u128 i8 i16 i32);
macro_rules! axb {
    ($($n:ident $t:ty),*) => { $(impl<const A: $t, const B: $t> Ax for $n<A, B> { fn code(self) -> i128 { self.into_inner() as i128 } })* };
}
axb!(BoundedU8 u8, BoundedU16 u16, BoundedI8 i8, BoundedI16 i16, BoundedI128 i128, BoundedU128 u128, BoundedIsize isize);

/// A position type a user may write over any two coordinate types.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Default)]
pub struct User<X, Y>(X, Y);
impl<X: Ax, Y: Ax> PosT for User<X, Y> {
    type Xtype = X;
    type Ytype = Y;
    const WIDTH: usize = 1;
    const HEIGHT: usize = 1;
    fn new_(xy: (X, Y)) -> Self {
        User(xy.0, xy.1)
    }
    fn tuple(&self) -> (X, Y) {
        (self.0, self.1)
    }
}

/* ----------------------------------------------------------------- cursors */

pub trait Cur {
    fn next(&mut self) -> Option<It>;
    fn nth(&mut self, k: usize) -> Option<It>;
    /// Whether it can be consumed from its end.
    fn two_ended(&self) -> bool {
        false
    }
    fn back(&mut self) -> Option<It> {
        unreachable!()
    }
    fn nth_back(&mut self, _k: usize) -> Option<It> {
        unreachable!()
    }
    fn dup(&self) -> Option<Box<dyn Cur>> {
        None
    }
    /// Show the items to a consumer that may panic; 0: for loop, 1: for_each,
    /// 2: try_for_each (stops when told), 3: from the end.
    fn feed(&mut self, how: u64, f: &mut dyn FnMut(It) -> bool);
    /// Hand over up to k items through an adapter. 0: take and collect, 1:
    /// every second one, 2: zipped, 3: from the end, 4: extending a list.
    fn some(&mut self, how: u64, k: usize) -> Vec<It>;
    /// What it says about how many are left.
    fn hint(&self) -> Option<(usize, Option<usize>)>;
    /// Consume it whole. 0: fold, 1: last, 2: count, 3: reversed fold, 4:
    /// collect, 5: reversed collect.
    fn whole(self: Box<Self>, how: u64, f: &mut dyn FnMut(It)) -> u64;
}

fn feed<I: Iterator>(it: &mut I, how: u64, code: fn(I::Item) -> It, f: &mut dyn FnMut(It) -> bool) {
    match how {
        0 => {
            for i in it {
                if !f(code(i)) {
                    break;
                }
            }
        }
        1 => it.by_ref().for_each(|i| {
            f(code(i));
        }),
        _ => {
            let _ = it.try_for_each(|i| if f(code(i)) { Some(()) } else { None });
        }
    }
}
fn some<I: Iterator>(it: &mut I, how: u64, k: usize, code: fn(I::Item) -> It) -> Vec<It> {
    let v: Vec<I::Item> = match how {
        0 => it.by_ref().take(k).collect(),
        1 => it.by_ref().step_by(2).take(k).collect(),
        2 => (0..k).zip(it.by_ref()).map(|(_, i)| i).collect(),
        _ => {
            let mut v = vec![];
            v.extend(it.by_ref().take(k));
            v
        }
    };
    v.into_iter().map(code).collect()
}
fn whole<I: Iterator>(it: I, how: u64, code: fn(I::Item) -> It, f: &mut dyn FnMut(It)) -> u64 {
    match how {
        1 => {
            if let Some(l) = it.last() {
                f(code(l));
                1
            } else {
                0
            }
        }
        2 => it.count() as u64,
        4 => {
            let v: Vec<_> = it.collect();
            let n = v.len() as u64;
            for i in v {
                f(code(i));
            }
            n
        }
        _ => it.fold(0, |n, i| {
            f(code(i));
            n + 1
        }),
    }
}

/// Forward only.
struct Fwd<I: Iterator>(I, fn(I::Item) -> It, Option<fn(&I) -> I>, bool);
impl<I: Iterator + 'static> Cur for Fwd<I> {
    fn next(&mut self) -> Option<It> {
        self.0.next().map(self.1)
    }
    fn nth(&mut self, k: usize) -> Option<It> {
        self.0.nth(k).map(self.1)
    }
    fn dup(&self) -> Option<Box<dyn Cur>> {
        let d = self.2?;
        Some(Box::new(Fwd(d(&self.0), self.1, self.2, self.3)))
    }
    fn feed(&mut self, how: u64, f: &mut dyn FnMut(It) -> bool) {
        feed(&mut self.0, how, self.1, f)
    }
    fn some(&mut self, how: u64, k: usize) -> Vec<It> {
        some(&mut self.0, how, k, self.1)
    }
    fn hint(&self) -> Option<(usize, Option<usize>)> {
        self.3.then(|| self.0.size_hint())
    }
    fn whole(self: Box<Self>, how: u64, f: &mut dyn FnMut(It)) -> u64 {
        whole(self.0, how, self.1, f)
    }
}
/// From both ends.
struct Two<I: Iterator>(I, fn(I::Item) -> It, fn(&I) -> I);
impl<I: DoubleEndedIterator + 'static> Cur for Two<I> {
    fn next(&mut self) -> Option<It> {
        self.0.next().map(self.1)
    }
    fn nth(&mut self, k: usize) -> Option<It> {
        self.0.nth(k).map(self.1)
    }
    fn two_ended(&self) -> bool {
        true
    }
    fn back(&mut self) -> Option<It> {
        self.0.next_back().map(self.1)
    }
    fn nth_back(&mut self, k: usize) -> Option<It> {
        self.0.nth_back(k).map(self.1)
    }
    fn dup(&self) -> Option<Box<dyn Cur>> {
        Some(Box::new(Two((self.2)(&self.0), self.1, self.2)))
    }
    fn feed(&mut self, how: u64, f: &mut dyn FnMut(It) -> bool) {
        if how == 3 {
            for i in self.0.by_ref().rev() {
                if !f((self.1)(i)) {
                    break;
                }
            }
        } else {
            feed(&mut self.0, how, self.1, f)
        }
    }
    fn some(&mut self, how: u64, k: usize) -> Vec<It> {
        if how == 3 {
            let v: Vec<I::Item> = self.0.by_ref().rev().take(k).collect();
            v.into_iter().map(self.1).collect()
        } else {
            some(&mut self.0, how, k, self.1)
        }
    }
    fn hint(&self) -> Option<(usize, Option<usize>)> {
        Some(self.0.size_hint())
    }
    fn whole(self: Box<Self>, how: u64, f: &mut dyn FnMut(It)) -> u64 {
        if how == 5 {
            let v: Vec<I::Item> = self.0.rev().collect();
            let n = v.len() as u64;
            for i in v {
                f((self.1)(i));
            }
            n
        } else if how == 3 {
            let c = self.1;
            self.0.rev().fold(0, |n, i| {
                f(c(i));
                n + 1
            })
        } else {
            whole(self.0, how, self.1, f)
        }
    }
}

/* -------------------------------------------------------------- the ranges */

/// A range, described by plain arithmetic.
#[derive(Clone, Copy, Debug)]
struct Range {
    kind: u8,
    /// First and last member's corner values.
    x: (i128, i128),
    y: (i128, i128),
}
const KIND: [&str; 10] = [
    "all positions by rows",
    "all positions by columns",
    "rectangle",
    "one column",
    "one row",
    "column numbers",
    "row numbers",
    "numbers (x type)",
    "numbers (y type)",
    "directions",
];
impl Range {
    fn width(&self) -> u128 {
        (self.x.1.wrapping_sub(self.x.0) as u128).saturating_add(1)
    }
    fn height(&self) -> u128 {
        (self.y.1.wrapping_sub(self.y.0) as u128).saturating_add(1)
    }
    /// Members, None if beyond counting.
    fn len(&self) -> Option<u64> {
        self.width().checked_mul(self.height()).filter(|n| *n < 1 << 60).map(|n| n as u64)
    }
    fn front(&self, i: u64) -> It {
        let i = i as u128;
        let (w, h) = (self.width(), self.height());
        let (dx, dy) = if self.kind == 1 { (i / h, i % h) } else { (i % w, i / w) };
        if self.kind == 9 && w == 4 {
            return (dx as i128 * 2, 0);
        }
        (self.x.0.wrapping_add(dx as i128), self.y.0.wrapping_add(dy as i128))
    }
    fn back(&self, j: u64) -> It {
        let j = j as u128;
        let (w, h) = (self.width(), self.height());
        let (dx, dy) = if self.kind == 1 { (j / h, j % h) } else { (j % w, j / w) };
        (self.x.1.wrapping_sub(dx as i128), self.y.1.wrapping_sub(dy as i128))
    }
}

pub trait Space: Sync {
    fn name(&self) -> String;
    fn bounds(&self) -> ((i128, i128), (i128, i128));
    fn make(&self, r: &RangeArg) -> Box<dyn Cur>;
    /// 0: next, 1: prev, 2: next_y, 3: prev_y.
    fn step(&self, p: It, how: u64) -> Option<It>;
    /// The bounding box of a stream, which says `hint` about its length.
    fn bbox(&self, how: u64, hint: (usize, Option<usize>), next: &mut dyn FnMut() -> Option<It>) -> Result<(It, It), Error>;
    /// The bounding box of the library's own rectangle iteration; 1: doubled,
    /// 2: backwards and forwards through a list.
    fn bbox_range(&self, tl: It, br: It, how: u64) -> Result<(It, It), Error>;
    /// Whether `p` lies in the rectangle with these opposite corners.
    fn inside(&self, p: It, a: It, b: It) -> bool;
}

/// A caller's stream of positions. Its stated length may be a lie.
struct Stream<'a, P> {
    next: &'a mut dyn FnMut() -> Option<It>,
    hint: (usize, Option<usize>),
    of: fn(It) -> P,
}
impl<P> Iterator for Stream<'_, P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        (self.next)().map(self.of)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// One of the spaces, the small and odd ones as often as the others.
pub fn fresh_space() -> &'static dyn Space {
    if wp(1, 2) {
        SPACES[w(15) as usize]
    } else {
        *pick(SPACES)
    }
}
/// The range and which of several spellings to use.
pub struct RangeArg(u8, (i128, i128), (i128, i128), u64);

struct Sp<P>(PhantomData<fn() -> P>, &'static str);

fn pc<P: PosT>(p: P) -> It
where
    P::Xtype: Ax,
    P::Ytype: Ax,
{
    let (x, y) = p.tuple();
    (x.code(), y.code())
}
fn xc<T: Ax>(v: T) -> It {
    (v.code(), 0)
}
fn copy_ints<T: BoundedInt>(i: &BoundedIntIterator<T>) -> BoundedIntIterator<T> {
    BoundedIntIterator {
        start: i.start,
        end: i.end,
    }
}

impl<P: PosT + 'static> Space for Sp<P>
where
    P::Xtype: Ax,
    P::Ytype: Ax,
{
    fn name(&self) -> String {
        self.1.to_string()
    }
    fn bounds(&self) -> ((i128, i128), (i128, i128)) {
        (
            (<P::Xtype as BoundedInt>::MIN.code(), <P::Xtype as BoundedInt>::MAX.code()),
            (<P::Ytype as BoundedInt>::MIN.code(), <P::Ytype as BoundedInt>::MAX.code()),
        )
    }
    fn make(&self, r: &RangeArg) -> Box<dyn Cur> {
        let RangeArg(kind, x, y, how) = *r;
        match kind {
            0 => match how % 4 {
                0 => Box::new(Two(P::iter(), pc, Clone::clone)),
                1 => Box::new(Two(P::iter_horizontal(), pc, |i| *i)),
                2 => Box::new(Two(P::iter_orientation::<true>(), pc, Clone::clone)),
                _ => Box::new(Two(PosTIter::<true, P>::default(), pc, |i| *i)),
            },
            1 => match how % 3 {
                0 => Box::new(Two(P::iter_vertical(), pc, Clone::clone)),
                1 => Box::new(Two(P::iter_orientation::<false>(), pc, |i| *i)),
                _ => Box::new(Two(PosTIter::<false, P>::default(), pc, Clone::clone)),
            },
            2 => {
                let tl = P::new_((P::Xtype::of(x.0), P::Ytype::of(y.0)));
                let br = P::new_((P::Xtype::of(x.1), P::Ytype::of(y.1)));
                match how % 2 {
                    0 => Box::new(Fwd(P::iter_range(tl, br), pc, Some(Clone::clone), true)),
                    _ => Box::new(Fwd(PosTIterRange::new(tl, br), pc, Some(|i| *i), true)),
                }
            }
            3 => Box::new(Fwd(P::iter_in_x(P::Xtype::of(x.0)), pc, Some(Clone::clone), true)),
            4 => Box::new(Fwd(P::iter_in_y(P::Ytype::of(y.0)), pc, Some(|i| *i), true)),
            5 => Box::new(Fwd(P::iter_x(), xc, None, true)),
            6 => Box::new(Fwd(P::iter_y(), xc, None, true)),
            7 => match how % 2 {
                0 if (x.0, x.1) == self.bounds().0 => Box::new(Two(<P::Xtype as BoundedInt>::iter(), xc, copy_ints)),
                _ => Box::new(Two(BoundedIntIterator::new(P::Xtype::of(x.0), P::Xtype::of(x.1)), xc, copy_ints)),
            },
            8 => match how % 2 {
                0 if (x.0, x.1) == self.bounds().1 => Box::new(Two(<P::Ytype as BoundedInt>::iter(), xc, copy_ints)),
                _ => Box::new(Two(BoundedIntIterator::new(P::Ytype::of(x.0), P::Ytype::of(x.1)), xc, copy_ints)),
            },
            _ => {
                fn dc(d: Dir) -> It {
                    (d as i128, 0)
                }
                match (x.1 == 3, how % 2) {
                    (true, 0) => Box::new(Fwd(Dir::iter::<false>(), dc, Some(Clone::clone), false)),
                    (true, _) => Box::new(Fwd(DirIter::<false>::default(), dc, Some(|i| *i), false)),
                    (false, 0) => Box::new(Fwd(Dir::iter::<true>(), dc, Some(Clone::clone), false)),
                    (false, _) => Box::new(Fwd(DirIter::<true>::default(), dc, Some(|i| *i), false)),
                }
            }
        }
    }
    fn step(&self, p: It, how: u64) -> Option<It> {
        let p = P::new_((P::Xtype::of(p.0), P::Ytype::of(p.1)));
        match how {
            0 => PosT::next(&p),
            1 => PosT::prev(&p),
            2 => PosT::next_y(&p),
            _ => PosT::prev_y(&p),
        }
        .map(pc)
    }
    fn bbox(&self, how: u64, hint: (usize, Option<usize>), next: &mut dyn FnMut() -> Option<It>) -> Result<(It, It), Error> {
        let of = |p: It| P::new_((P::Xtype::of(p.0), P::Ytype::of(p.1)));
        let mut s = Stream { next, hint, of };
        match how {
            0 => P::tlbr_of(s),
            1 => P::tlbr_of(&mut s),
            2 => P::tlbr_of(Box::new(s) as Box<dyn Iterator<Item = P> + '_>),
            _ => P::tlbr_of(std::iter::from_fn(|| s.next())),
        }
        .map(|(a, b)| (pc(a), pc(b)))
    }
    fn inside(&self, p: It, a: It, b: It) -> bool {
        let of = |p: It| P::new_((P::Xtype::of(p.0), P::Ytype::of(p.1)));
        PosT::inside(&of(p), &of(a), &of(b))
    }
    fn bbox_range(&self, tl: It, br: It, how: u64) -> Result<(It, It), Error> {
        let of = |p: It| P::new_((P::Xtype::of(p.0), P::Ytype::of(p.1)));
        let it = P::iter_range(of(tl), of(br));
        match how {
            0 => P::tlbr_of(it),
            1 => P::tlbr_of(it.chain(P::iter_range(of(tl), of(br)))),
            _ => P::tlbr_of(it.collect::<Vec<_>>().into_iter().rev()),
        }
        .map(|(a, b)| (pc(a), pc(b)))
    }
}

macro_rules! spaces {
    ($($t:ty),* $(,)?) => { &[$(&Sp::<$t>(PhantomData, stringify!($t))),*] };
}
static SPACES: &[&dyn Space] = spaces![
    Pos<2, 2>,
    Pos<3, 1>,
    Pos<1, 3>,
    Pos<0, 0>,
    Pos<0, 5>,
    Pos<5, 0>,
    Pos<6, 4>,
    Pos<4, 9>,
    SimPos<4, 2>,
    User<BoundedU8<3, 9>, BoundedI8<-2, 3>>,
    User<BoundedI16<-5, -1>, BoundedU16<65530, 65535>>,
    User<BoundedI8<-128, -126>, BoundedU8<250, 255>>,
    User<BoundedI8<124, 127>, BoundedI16<-1, 0>>,
    User<BoundedI128<{ i128::MAX - 2 }, { i128::MAX }>, BoundedU128<{ u128::MAX - 3 }, { u128::MAX }>>,
    User<BoundedIsize<{ isize::MIN }, { isize::MIN + 1 }>, u8>,
    (u8, u8),
    (i8, i8),
    (u16, u16),
    (i16, i16),
    (u32, u32),
    (i32, i32),
    (u64, u64),
    (u128, u128),
    Pos<65535, 0>,
    Pos<0, 65535>,
    Pos<65535, 65535>,
    Pos<255, 255>,
];

/* ---------------------------------------------------------------- scenario */

struct Live {
    cur: Box<dyn Cur>,
    r: Range,
    /// Members taken from the front and from the end.
    lo: u64,
    hi: u64,
    sp: &'static dyn Space,
}

impl Live {
    fn left(&self) -> Option<u64> {
        self.r.len().map(|n| n - self.lo - self.hi)
    }
    fn what(&self) -> String {
        format!(
            "{} x {:?} y {:?} on {} after {} from the front and {} from the end",
            KIND[self.r.kind as usize],
            self.r.x,
            self.r.y,
            self.sp.name(),
            self.lo,
            self.hi
        )
    }
    /// The item `k` places after the front (or before the end), then gone.
    fn due(&mut self, k: u64, back: bool) -> Option<It> {
        if let Some(n) = self.left() {
            if k >= n {
                // Skipped past everything.
                if back {
                    self.hi += n
                } else {
                    self.lo += n
                }
                return None;
            }
        }
        if back {
            self.hi += k + 1;
            Some(self.r.back(self.hi - 1))
        } else {
            self.lo += k + 1;
            Some(self.r.front(self.lo - 1))
        }
    }
    fn judge(&self, before: &str, how: &str, got: Option<It>, want: Option<It>) {
        ensure!(got == want, "wrong-item", "{how} gave {got:?} instead of {want:?}: {before}");
        stat("checked");
        if want.is_none() {
            stat("asked-when-finished");
        }
    }
}

fn new_live() -> Live {
    let sp = if wp(1, 2) { SPACES[w(15) as usize] } else { *pick(SPACES) };
    let (bx, by) = sp.bounds();
    let kind = match w(16) {
        0..=1 => 0,
        2..=3 => 1,
        4..=8 => 2,
        9..=10 => 3,
        11..=12 => 4,
        13 => 5 + w(2) as u8,
        14 => 7 + w(2) as u8,
        _ => 9,
    };
    // An interval in a coordinate's bounds, often touching them.
    let span = |b: (i128, i128), small: u64| -> (i128, i128) {
        let room = b.1.wrapping_sub(b.0) as u128;
        let n = match w(4) {
            0 => room.min(small as u128),
            _ => (w(small + 1) as u128).min(room),
        };
        let free = room - n;
        let off = match w(4) {
            0 => 0,
            1 => free,
            _ => w((free as u64).clamp(0, 1 << 40) + 1) as u128,
        };
        let a = b.0.wrapping_add(off as i128);
        (a, a.wrapping_add(n as i128))
    };
    let (x, y) = match kind {
        0 | 1 => (bx, by),
        2 => {
            let small = if wp(1, 40) { 300 } else { 7 };
            (span(bx, small), span(by, small))
        }
        3 => {
            let c = span(bx, 0).0;
            ((c, c), by)
        }
        4 => {
            let c = span(by, 0).0;
            (bx, (c, c))
        }
        5 => (bx, (0, 0)),
        6 => (by, (0, 0)),
        7 => (if wp(1, 2) { bx } else { span(bx, 20) }, (0, 0)),
        8 => (if wp(1, 2) { by } else { span(by, 20) }, (0, 0)),
        _ => ((0, if wp(1, 2) { 3 } else { 7 }), (0, 0)),
    };
    let r = Range { kind, x, y };
    let how = w(12);
    let l = match call(|| sp.make(&RangeArg(kind, x, y, how))) {
        Call::Done(cur) => Live { cur, r, lo: 0, hi: 0, sp },
        Call::Panicked(m) => fail("library-panic", format!("starting {} x {x:?} y {y:?} on {} panicked: {m}", KIND[kind as usize], sp.name())),
        Call::Injected(k) => fail("harness", format!("unexpected injected panic #{k}")),
    };
    note(|| format!("new {}", l.what()));
    ev("new", kind as i64, how as i64);
    l
}

fn ask(l: &mut Live, how: &str, f: impl FnOnce(&mut dyn Cur) -> Option<It>, k: u64, back: bool) {
    let before = l.what();
    note(|| format!("{how} on {before}"));
    let got = match call(|| f(&mut *l.cur)) {
        Call::Done(g) => g,
        Call::Panicked(m) => fail("library-panic", format!("{how} panicked: {m}: {before}")),
        Call::Injected(n) => fail("harness", format!("unexpected injected panic #{n}")),
    };
    let want = l.due(k, back);
    ev(if back { "back" } else { "front" }, got.map_or(-1, |g| g.0 as i64), got.map_or(-1, |g| g.1 as i64));
    l.judge(&before, how, got, want);
}

/// What the iteration says is left, against what is.
fn hinted(l: &Live) {
    let (lo, hi) = match call(|| l.cur.hint()) {
        Call::Done(Some(h)) => h,
        Call::Done(None) => return,
        Call::Panicked(m) => fail("library-panic", format!("asking how many are left panicked: {m}: {}", l.what())),
        Call::Injected(n) => fail("harness", format!("unexpected injected panic #{n}")),
    };
    let ok = match l.left() {
        Some(n) => lo as u64 <= n && hi.is_none_or(|h| h as u64 >= n),
        None => hi.is_none_or(|h| h >= 1 << 59),
    };
    ensure!(ok, "wrong-announcement", "says that {lo} to {hi:?} are left: {}", l.what());
    stat("checked");
}

/// Some items through an adapter.
fn adapted(l: &mut Live) {
    let how = if l.cur.two_ended() { w(5) } else { [0, 1, 2, 4][w(4) as usize] };
    let k = w(12);
    let before = l.what();
    note(|| format!("taking {k} through adapter {how}: {before}"));
    let v = match call(|| l.cur.some(how, k as usize)) {
        Call::Done(v) => v,
        Call::Panicked(m) => fail("library-panic", format!("taking {k} items through adapter {how} panicked: {m}: {before}")),
        Call::Injected(n) => fail("harness", format!("unexpected injected panic #{n}")),
    };
    let mut want = vec![];
    for j in 0..k {
        let skip = (how == 1 && j > 0) as u64;
        match l.due(skip, how == 3) {
            Some(i) => want.push(i),
            None => break,
        }
    }
    ev("adapted", v.len() as i64, how as i64);
    ensure!(v == want, "wrong-item", "adapter {how} gave {v:?} instead of {want:?}: {before}");
    stat("checked");
}

/// Feed a consumer that stops or panics on the way.
fn feed_some(l: &mut Live) {
    let back = l.cur.two_ended() && wp(1, 3);
    let most = l.left().unwrap_or(40).min(40);
    let endless = l.left().is_none_or(|n| n > 3000);
    let how = if back { 3 } else if endless { [0, 2][w(2) as usize] } else { w(3) };
    let stop = if how == 1 { u64::MAX } else if endless || wp(1, 2) { w(most + 1) } else { u64::MAX };
    let boom = if fp(1, 3) { f(most + 1) } else { u64::MAX };
    let before = l.what();
    note(|| format!("feeding a consumer (way {how}, stop after {stop}, panic at {boom}): {before}"));
    let mut taken = 0u64;
    let mut probe = Live {
        cur: Box::new(Fwd(std::iter::empty(), |i: It| i, None, false)),
        r: l.r,
        lo: l.lo,
        hi: l.hi,
        sp: l.sp,
    };
    let r = call(|| {
        l.cur.feed(how, &mut |i| {
            yp();
            let want = probe.due(0, back);
            probe.judge(&before, "a consumer loop", Some(i), want);
            taken += 1;
            if taken == boom.saturating_add(1) {
                inject_panic("fault:panic-in-consumer");
            }
            taken <= stop
        })
    });
    l.lo = probe.lo;
    l.hi = probe.hi;
    match r {
        Call::Done(()) => {
            if taken <= stop {
                ensure!(l.left() == Some(0), "items-missing", "a consumer loop (way {how}) ended after {taken} items: {before}");
            }
        }
        Call::Injected(k) => {
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {before}", last_fault());
            stat("continued-after-panic");
        }
        Call::Panicked(m) => fail("library-panic", format!("a consumer loop panicked: {m}: {before}")),
    }
    ev("fed", taken as i64, how as i64);
}

/// Consume the rest at once.
fn finish(l: Live) {
    let Some(n) = l.left() else { return };
    if n > if wp(1, 60) { 70_000 } else { 1500 } {
        return;
    }
    let back = l.cur.two_ended() && wp(1, 4);
    let how = if back { [3, 5][w(2) as usize] } else { [0, 1, 2, 4][w(4) as usize] };
    let before = l.what();
    note(|| format!("consuming the rest (way {how}): {before}"));
    let Live { cur, r, lo, hi, .. } = l;
    let mut k = 0u64;
    let res = call(|| {
        cur.whole(how, &mut |i| {
            if k % 16 == 0 {
                yp();
            }
            let want = match how {
                1 => r.front(r.len().unwrap() - hi - 1),
                3 | 5 => r.back(hi + k),
                _ => r.front(lo + k),
            };
            ensure!(k < n, "too-many-items", "the rest has more than {n} items: {before}");
            ensure!(i == want, "wrong-item", "item {k} of the rest (way {how}) is {i:?} instead of {want:?}: {before}");
            k += 1;
        })
    });
    match res {
        Call::Done(got) => {
            let want = if how == 1 { n.min(1) } else { n };
            ensure!(got == want, "wrong-count", "the rest (way {how}) has {got} items instead of {want}: {before}");
            stat("checked");
        }
        Call::Panicked(m) => fail("library-panic", format!("consuming the rest panicked: {m}: {before}")),
        Call::Injected(n) => fail("harness", format!("unexpected injected panic #{n}")),
    }
    ev("whole", n as i64, how as i64);
}

fn stepping() {
    let sp = if wp(1, 2) { SPACES[w(15) as usize] } else { *pick(SPACES) };
    let (bx, by) = sp.bounds();
    let coord = |b: (i128, i128)| {
        let room = b.1.wrapping_sub(b.0) as u128;
        let off = (w(4) as u128).min(room);
        if wp(1, 2) {
            b.0.wrapping_add(off as i128)
        } else {
            b.1.wrapping_sub(off as i128)
        }
    };
    let mut p = (coord(bx), coord(by));
    for _ in 0..4 + w(12) {
        let how = w(4);
        // Which coordinate moves first, and which way.
        let fwd = how % 2 == 0;
        let turn = |v: i128, b: (i128, i128)| -> Option<i128> {
            if fwd {
                (v != b.1).then(|| v.wrapping_add(1))
            } else {
                (v != b.0).then(|| v.wrapping_sub(1))
            }
        };
        let start = |b: (i128, i128)| if fwd { b.0 } else { b.1 };
        let want = if how < 2 {
            match turn(p.0, bx) {
                Some(x) => Some((x, p.1)),
                None => turn(p.1, by).map(|y| (start(bx), y)),
            }
        } else {
            match turn(p.1, by) {
                Some(y) => Some((p.0, y)),
                None => turn(p.0, bx).map(|x| (x, start(by))),
            }
        };
        let name = ["next", "prev", "next_y", "prev_y"][how as usize];
        let got = match call(|| sp.step(p, how)) {
            Call::Done(g) => g,
            Call::Panicked(m) => fail("library-panic", format!("{name} of {p:?} on {} panicked: {m}", sp.name())),
            Call::Injected(n) => fail("harness", format!("unexpected injected panic #{n}")),
        };
        ev("step", how as i64, got.is_some() as i64);
        ensure!(got == want, "wrong-step", "{name} of {p:?} is {got:?} instead of {want:?} on {}", sp.name());
        stat("checked");
        if let Some(n) = got {
            p = n;
        }
        yp();
    }
}

type Pool = Arc<Mutex<Baton<Vec<Live>>>>;

fn client(pool: Pool, ops: u64) {
    for _ in 0..ops {
        yp();
        if wp(1, 12) {
            stepping();
            continue;
        }
        let got = {
            let mut g = pool.lock().unwrap();
            let n = g.0.len() as u64;
            // The oldest first when choices run out.
            if n == 0 || (n < 5 && wp(1, 6)) {
                None
            } else {
                let k = w(n) as usize;
                Some(g.0.remove(k))
            }
        };
        let mut l = got.unwrap_or_else(new_live);
        for _ in 0..1 + w(6) {
            let two = l.cur.two_ended();
            match w(12) {
                11 => hinted(&l),
                10 => adapted(&mut l),
                0..=3 => ask(&mut l, "next", |c| c.next(), 0, false),
                4 | 5 if two => ask(&mut l, "next_back", |c| c.back(), 0, true),
                6 => {
                    let k = w(8);
                    ask(&mut l, &format!("nth({k})"), |c| c.nth(k as usize), k, false)
                }
                7 if two => {
                    let k = w(8);
                    ask(&mut l, &format!("nth_back({k})"), |c| c.nth_back(k as usize), k, true)
                }
                8 => feed_some(&mut l),
                9 => {
                    if let Some(c) = l.cur.dup() {
                        stat("copies");
                        note(|| format!("copy of {}", l.what()));
                        let d = Live { cur: c, r: l.r, lo: l.lo, hi: l.hi, sp: l.sp };
                        let mut g = pool.lock().unwrap();
                        if g.0.len() < 8 {
                            g.0.push(d);
                        }
                    }
                }
                _ => ask(&mut l, "next", |c| c.next(), 0, false),
            }
            yp();
        }
        match w(8) {
            0 => finish(l),
            1 => {
                note(|| format!("abandoning {}", l.what()));
                stat("abandoned");
            }
            _ => {
                let mut g = pool.lock().unwrap();
                g.0.push(l);
            }
        }
    }
}

pub fn c14() {
    set_gap_scale(1 << w(6));
    let pool: Pool = Arc::new(Mutex::new(Baton(vec![])));
    let n = 1 + w(3);
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let ops = 2 + w(14);
            let p = Baton(pool.clone());
            (
                hs,
                Box::new(move || {
                    let p = p;
                    client(p.into(), ops)
                }) as Task,
            )
        })
        .collect();
    run_tasks(tasks, 2 << 20);
    let rest = std::mem::take(&mut pool.lock().unwrap().0);
    for l in rest {
        finish(l);
    }
}
