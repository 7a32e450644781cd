//! Position types and storage back-ends driven by the simulator.

use crate::{fp, fault_fired, inject_panic, yp};
use sqrid::*;
use std::cell::Cell as StdCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Add;

/// A position type the harness can name by a plain cell number.
pub trait Cell:
    PosT + Copy + Ord + Hash + Debug + 'static + Add<Dir, Output = Result<Self, Error>>
{
    /// Cell at column x, row y of the window the harness works in.
    fn at(x: u32, y: u32) -> Self;
    /// Column and row; None when outside the window's half-plane.
    fn xy(&self) -> (i64, i64);
}

impl<const X: u16, const Y: u16> Cell for Pos<X, Y> {
    fn at(x: u32, y: u32) -> Self {
        match Pos::<X, Y>::new(x as u16, y as u16) {
            Ok(p) => p,
            Err(_) => crate::fail("position-refused", format!("Pos::new({x},{y}) refused inside the grid")),
        }
    }
    fn xy(&self) -> (i64, i64) {
        let (x, y) = Pos::tuple(self);
        (x as i64, y as i64)
    }
}

/* ------------------------------------------------------------- user tuples */

macro_rules! tuple_cell {
    ($t:ty, $ox:expr, $oy:expr) => {
        impl Cell for ($t, $t) {
            fn at(x: u32, y: u32) -> Self {
                let (ox, oy): ($t, $t) = ($ox, $oy);
                (ox.wrapping_add(x as $t), oy.wrapping_add(y as $t))
            }
            fn xy(&self) -> (i64, i64) {
                // Clamped: far-away coordinates only need to stay far away.
                fn off(v: $t, o: $t) -> i64 {
                    let d = (v.abs_diff(o) as u128).min(1 << 40) as i64;
                    if v < o {
                        -d
                    } else {
                        d
                    }
                }
                (off(self.0, $ox), off(self.1, $oy))
            }
        }
    };
}
tuple_cell!(u8, 249, 0); // touches the right edge x=255 (7 columns)
tuple_cell!(u16, 0, 65531); // touches the bottom edge y=65535 (5 rows)
tuple_cell!(u32, 4_000_000_000u32, 17);
tuple_cell!(u64, u64::MAX - 5, u64::MAX - 4); // touches the right and bottom edges
tuple_cell!(u128, u128::MAX / 2, u128::MAX - 4);
tuple_cell!(i8, i8::MIN, i8::MIN); // 256 columns and rows are the whole type
tuple_cell!(i16, i16::MIN, -2); // 65536 columns are the whole width
tuple_cell!(i32, -3, -2); // straddles zero

/* ------------------------------------------------------------------ SimPos */

/// A user-written position type with its own (column-major, reversed) order
/// and a hash that collides for every position; comparing and hashing are
/// yield points and, when armed, fault points.
#[derive(Clone, Copy, Default)]
pub struct SimPos<const X: u16, const Y: u16>(pub BoundedU16<0, X>, pub BoundedU16<0, Y>);

thread_local! {
    /// Remaining comparisons/hashes before a panic (0: never).
    static FUSE: StdCell<u64> = const { StdCell::new(0) };
}
pub fn arm_pos_fuse(n: u64) {
    FUSE.with(|f| f.set(n));
}
fn pos_touch(kind: &'static str) {
    yp();
    let n = FUSE.with(|f| f.get());
    if n > 0 {
        FUSE.with(|f| f.set(n - 1));
        if n == 1 && !std::thread::panicking() {
            inject_panic(kind);
        }
    }
}

impl<const X: u16, const Y: u16> SimPos<X, Y> {
    fn raw(&self) -> (u16, u16) {
        (self.0.into_inner(), self.1.into_inner())
    }
}
impl<const X: u16, const Y: u16> Debug for SimPos<X, Y> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.raw())
    }
}
impl<const X: u16, const Y: u16> PartialEq for SimPos<X, Y> {
    fn eq(&self, o: &Self) -> bool {
        pos_touch("fault:panic-in-eq");
        self.raw() == o.raw()
    }
}
impl<const X: u16, const Y: u16> Eq for SimPos<X, Y> {}
impl<const X: u16, const Y: u16> PartialOrd for SimPos<X, Y> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const X: u16, const Y: u16> Ord for SimPos<X, Y> {
    fn cmp(&self, o: &Self) -> Ordering {
        pos_touch("fault:panic-in-cmp");
        let (a, b) = (self.raw(), o.raw());
        (b.0, b.1).cmp(&(a.0, a.1))
    }
}
impl<const X: u16, const Y: u16> Hash for SimPos<X, Y> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        pos_touch("fault:panic-in-hash");
        7u8.hash(h);
    }
}
impl<const X: u16, const Y: u16> PosT for SimPos<X, Y> {
    type Xtype = BoundedU16<0, X>;
    type Ytype = BoundedU16<0, Y>;
    const WIDTH: usize = X as usize + 1;
    const HEIGHT: usize = Y as usize + 1;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        SimPos(xy.0, xy.1)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        (self.0, self.1)
    }
}
impl<const X: u16, const Y: u16> Add<Dir> for SimPos<X, Y> {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output {
        let (dx, dy) = STEP[d as usize];
        let (x, y) = self.raw();
        let (nx, ny) = (x as i64 + dx, y as i64 + dy);
        if nx < 0 || ny < 0 || nx > X as i64 || ny > Y as i64 {
            return Err(Error::OutOfBounds);
        }
        Ok(Self::at(nx as u32, ny as u32))
    }
}
impl<const X: u16, const Y: u16> Cell for SimPos<X, Y> {
    fn at(x: u32, y: u32) -> Self {
        SimPos(BoundedU16(x as u16), BoundedU16(y as u16))
    }
    fn xy(&self) -> (i64, i64) {
        let (x, y) = self.raw();
        (x as i64, y as i64)
    }
}

/* ------------------------------------------------------------------ OffPos */

/// A user-written position type whose coordinates do not start at zero, so
/// that coordinate differences do not fit the coordinate type.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OffPos(pub BoundedI8<-3, 3>, pub BoundedU16<65000, 65004>);

impl PosT for OffPos {
    type Xtype = BoundedI8<-3, 3>;
    type Ytype = BoundedU16<65000, 65004>;
    const WIDTH: usize = 7;
    const HEIGHT: usize = 5;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        OffPos(xy.0, xy.1)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        (self.0, self.1)
    }
}
impl Add<Dir> for OffPos {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output {
        let (dx, dy) = STEP[d as usize];
        let (x, y) = self.xy();
        let (nx, ny) = (x + dx, y + dy);
        if nx < 0 || ny < 0 || nx > 6 || ny > 4 {
            return Err(Error::OutOfBounds);
        }
        Ok(Self::at(nx as u32, ny as u32))
    }
}
impl Cell for OffPos {
    fn at(x: u32, y: u32) -> Self {
        OffPos(BoundedI8(x as i8 - 3), BoundedU16(y as u16 + 65000))
    }
    fn xy(&self) -> (i64, i64) {
        (self.0 .0 as i64 + 3, self.1 .0 as i64 - 65000)
    }
}

/// Unit steps, indexed by `Dir as usize` (N, NE, E, SE, S, SW, W, NW).
pub const STEP: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];

/* -------------------------------------------------------- SimMap / SimSet */

thread_local! {
    /// (panic fuse, lost-write probability /64) of the caller-supplied stores.
    static STORE: StdCell<(u64, u64)> = const { StdCell::new((0, 0)) };
}
pub fn arm_store(fuse: u64, lose: u64) {
    STORE.with(|s| s.set((fuse, lose)));
}
fn store_touch(write: bool) -> bool {
    yp();
    let (n, lose) = STORE.with(|s| s.get());
    if n > 0 {
        STORE.with(|s| s.set((n - 1, lose)));
        if n == 1 {
            inject_panic("fault:panic-in-store");
        }
    }
    if write && lose > 0 && fp(lose, 64) {
        fault_fired("fault:lost-store-write");
        return false;
    }
    true
}

/// Caller-supplied map: a plain ordered table keyed by coordinates.
#[derive(Clone, Debug)]
pub struct SimMap<Item> {
    pub m: BTreeMap<(i64, i64), Item>,
    pub def: Item,
}
impl<Item: Default> Default for SimMap<Item> {
    fn default() -> Self {
        SimMap {
            m: BTreeMap::new(),
            def: Item::default(),
        }
    }
}
impl<Item, P: Cell, const WORDS: usize, const SIZE: usize> MapPos<Item, P, WORDS, SIZE> for SimMap<Item> {
    fn new(item: Item) -> Self {
        SimMap {
            m: BTreeMap::new(),
            def: item,
        }
    }
    fn get(&self, pos: &P) -> &Item {
        store_touch(false);
        self.m.get(&pos.xy()).unwrap_or(&self.def)
    }
    fn set(&mut self, pos: P, item: Item) {
        if store_touch(true) {
            self.m.insert(pos.xy(), item);
        }
    }
}

/// Caller-supplied set.
#[derive(Clone, Debug, Default)]
pub struct SimSet {
    pub s: std::collections::BTreeSet<(i64, i64)>,
}
impl<P: Cell, const WORDS: usize, const SIZE: usize> SetPos<P, WORDS, SIZE> for SimSet {
    fn contains(&self, pos: &P) -> bool {
        store_touch(false);
        self.s.contains(&pos.xy())
    }
    fn insert(&mut self, pos: P) {
        store_touch(false);
        self.s.insert(pos.xy());
    }
    fn remove(&mut self, pos: &P) {
        store_touch(false);
        self.s.remove(&pos.xy());
    }
}

/* ------------------------------------------------ what the macros came to -- */

/// The parameters of a type written with one of the library's macros.
pub trait SqridParts {
    const X: u16;
    const Y: u16;
    const D: bool;
    const WORDS: usize;
    const SIZE: usize;
}
impl<const X_: u16, const Y_: u16, const D_: bool, const WO: usize, const SI: usize> SqridParts for sqrid::Sqrid<X_, Y_, D_, WO, SI> {
    const X: u16 = X_;
    const Y: u16 = Y_;
    const D: bool = D_;
    const WORDS: usize = WO;
    const SIZE: usize = SI;
}
pub trait GridParts {
    const LEN: usize;
}
impl<T, P: sqrid::PosT, const SI: usize> GridParts for sqrid::Grid<T, P, SI> {
    const LEN: usize = SI;
}
impl<P: sqrid::PosT, const WO: usize> GridParts for sqrid::Gridbool<P, WO> {
    const LEN: usize = WO;
}
