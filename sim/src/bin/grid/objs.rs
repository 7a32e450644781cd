//! Erased interfaces over the library's grids, boolean grids and storage
//! back-ends for many shapes and position types.

use crate::elems::*;
use simcore::cells::*;
use simcore::*;
use sqrid::*;
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub type Pairs<'a, T> = &'a mut dyn Iterator<Item = (u32, T)>;

fn at<P: Cell>(c: u32, w: u32) -> P {
    P::at(c % w, c / w)
}
pub fn num<P: Cell>(p: &P, w: u32, h: u32) -> u32 {
    let (x, y) = p.xy();
    if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
        fail("foreign-position", format!("the library produced position {p:?} outside a {w}x{h} grid"));
    }
    y as u32 * w + x as u32
}

/// One grid of elements of type T.
/// Consuming iterations offer both ends today; the checks do not insist.
pub mod ends {
    pub struct Ends<I>(pub I);
    pub trait Two<T> {
        fn two(&mut self) -> bool;
        fn back(&mut self) -> Option<T>;
    }
    impl<I: DoubleEndedIterator> Two<I::Item> for Ends<I> {
        fn two(&mut self) -> bool {
            true
        }
        fn back(&mut self) -> Option<I::Item> {
            self.0.next_back()
        }
    }
    pub trait One<T> {
        fn two(&mut self) -> bool;
        fn back(&mut self) -> Option<T>;
    }
    impl<I: Iterator> One<I::Item> for &mut Ends<I> {
        fn two(&mut self) -> bool {
            false
        }
        fn back(&mut self) -> Option<I::Item> {
            None
        }
    }
}

pub trait GridObj<T> {
    fn any(&self) -> &dyn Any;
    fn name(&self) -> String;
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn square(&self) -> bool;
    fn get(&self, c: u32, how: u64) -> &T;
    fn get_mut(&mut self, c: u32, how: u64) -> &mut T;
    fn assign(&mut self, c: u32, v: T, how: u64);
    fn line(&self, y: u32) -> &[T];
    fn line_mut(&mut self, y: u32) -> &mut [T];
    fn flip_h(&mut self);
    fn flip_v(&mut self);
    fn rotate(&mut self, cw: bool);
    /// Show cells in order until `f` says stop. 0: iter, 1: iter_pos, 2: &grid.
    fn walk(&self, how: u64, f: &mut dyn FnMut(u32, &T) -> bool);
    fn walk_mut(&mut self, how: u64, f: &mut dyn FnMut(u32, &mut T) -> bool);
    fn extend(&mut self, s: Lazy<Pairs<T>>);
    fn vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error>;
    fn dup(&self) -> Box<dyn GridObj<T>>;
    /// Overwrite self with a clone of the other (Clone::clone_from).
    fn clone_from(&mut self, o: &dyn GridObj<T>);
    fn same(&self, o: &dyn GridObj<T>) -> bool;
    fn hash(&self) -> u64;
    /// Consume through into_iter; `from` says which end next, None: drop it.
    fn consume(self: Box<Self>, from: &mut dyn FnMut(bool) -> Option<bool>, sink: &mut dyn FnMut(T));
    fn inner(self: Box<Self>) -> Vec<T>;
    /// Render with a format specification.
    fn render(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result;
    fn render_io(&self, spec: usize, width: usize, out: &mut dyn std::io::Write) -> std::io::Result<()>;
    // Copyable elements only:
    fn extend_refs(&mut self, _s: Lazy<&mut dyn Iterator<Item = (u32, &'static T)>>) {
        unreachable!()
    }
    fn extend_pairs(&mut self, _s: &[(u32, T)], _each: &mut dyn FnMut()) {
        unreachable!()
    }
    fn neg(self: Box<Self>) -> Box<dyn GridObj<T>> {
        unreachable!()
    }
}

pub trait Shape<T>: Sync {
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn name(&self) -> String;
    fn default(&self) -> Box<dyn GridObj<T>>;
    fn collect(&self, s: Lazy<&mut dyn Iterator<Item = T>>) -> Box<dyn GridObj<T>>;
    fn rows(&self, v: Vec<Vec<T>>) -> Result<Box<dyn GridObj<T>>, Error>;
    fn repeat(&self, _v: T) -> Box<dyn GridObj<T>> {
        unreachable!()
    }
    fn collect_refs(&self, _s: Lazy<&mut dyn Iterator<Item = &'static T>>) -> Box<dyn GridObj<T>> {
        unreachable!()
    }
}

pub const SPECS: usize = 9;
pub const SPEC: [&str; SPECS] = ["{}", "{:w$}", "{:<w$}", "{:>w$}", "{:^w$}", "{:*>w$}", "{:.<w$}", "{:_^w$}", "{:é>w$}"];
/// (fill, alignment) of each, None: formatter's default.
pub const PADDING: [(char, char); SPECS] = [
    (' ', '-'),
    (' ', '<'),
    (' ', '<'),
    (' ', '>'),
    (' ', '^'),
    ('*', '>'),
    ('.', '<'),
    ('_', '^'),
    ('é', '>'),
];
macro_rules! put {
    ($out:expr, $spec:expr, $v:expr, $w:expr) => {
        match $spec {
            0 => write!($out, "{}", $v),
            1 => write!($out, "{:w$}", $v, w = $w),
            2 => write!($out, "{:<w$}", $v, w = $w),
            3 => write!($out, "{:>w$}", $v, w = $w),
            4 => write!($out, "{:^w$}", $v, w = $w),
            5 => write!($out, "{:*>w$}", $v, w = $w),
            6 => write!($out, "{:.<w$}", $v, w = $w),
            7 => write!($out, "{:_^w$}", $v, w = $w),
            _ => write!($out, "{:é>w$}", $v, w = $w),
        }
    };
}
pub fn put_any<D: fmt::Display>(v: &D, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
    put!(out, spec, v, width)
}
pub fn put_any_io<D: fmt::Display>(v: &D, spec: usize, width: usize, out: &mut dyn std::io::Write) -> std::io::Result<()> {
    put!(out, spec, v, width)
}

type Rot<G> = fn(&mut G, bool);

pub struct G<T, P: PosT, const SIZE: usize> {
    g: Grid<T, P, SIZE>,
    rot: Option<Rot<Grid<T, P, SIZE>>>,
}

macro_rules! grid_obj {
    ($t:ty, { $($extra:tt)* }, { $($shape_extra:tt)* }) => {
        impl<P: Cell, const SIZE: usize> GridObj<$t> for G<$t, P, SIZE> {
            fn any(&self) -> &dyn Any {
                self
            }
            fn name(&self) -> String {
                format!("{}x{}", P::WIDTH, P::HEIGHT)
            }
            fn w(&self) -> u32 {
                P::WIDTH as u32
            }
            fn h(&self) -> u32 {
                P::HEIGHT as u32
            }
            fn square(&self) -> bool {
                self.rot.is_some()
            }
            fn get(&self, c: u32, how: u64) -> &$t {
                let w = P::WIDTH as u32;
                let p = at::<P>(c, w);
                match how {
                    0 => self.g.get(&p),
                    1 => &self.g[p],
                    2 => &self.g[&p],
                    3 => &GridObj::line(self, c / w)[(c % w) as usize],
                    4 => &self.g.as_array()[c as usize],
                    _ => &AsRef::<[$t; SIZE]>::as_ref(&self.g)[c as usize],
                }
            }
            fn get_mut(&mut self, c: u32, how: u64) -> &mut $t {
                let w = P::WIDTH as u32;
                let p = at::<P>(c, w);
                match how {
                    0 => self.g.get_mut(&p),
                    1 => &mut self.g[p],
                    2 => &mut self.g[&p],
                    3 => &mut GridObj::line_mut(self, c / w)[(c % w) as usize],
                    4 => &mut self.g.as_array_mut()[c as usize],
                    5 => &mut AsMut::<[$t; SIZE]>::as_mut(&mut self.g)[c as usize],
                    _ => match self.g.iter_mut().nth(c as usize) {
                        Some(r) => r,
                        None => fail("cell-missing", format!("iter_mut has no item {c} on {}x{}", P::WIDTH, P::HEIGHT)),
                    },
                }
            }
            fn assign(&mut self, c: u32, v: $t, how: u64) {
                let p = at::<P>(c, P::WIDTH as u32);
                match how {
                    0 => *self.g.get_mut(&p) = v,
                    1 => self.g[p] = v,
                    _ => self.g[&p] = v,
                }
            }
            fn line(&self, y: u32) -> &[$t] {
                self.g.line(at::<P>(y * P::WIDTH as u32, P::WIDTH as u32).tuple().1)
            }
            fn line_mut(&mut self, y: u32) -> &mut [$t] {
                self.g.line_mut(at::<P>(y * P::WIDTH as u32, P::WIDTH as u32).tuple().1)
            }
            fn flip_h(&mut self) {
                self.g.flip_h()
            }
            fn flip_v(&mut self) {
                self.g.flip_v()
            }
            fn rotate(&mut self, cw: bool) {
                (self.rot.unwrap())(&mut self.g, cw)
            }
            fn walk(&self, how: u64, f: &mut dyn FnMut(u32, &$t) -> bool) {
                let (w, h) = (P::WIDTH as u32, P::HEIGHT as u32);
                match how {
                    0 => {
                        for (i, t) in self.g.iter().enumerate() {
                            if !f(i as u32, t) {
                                break;
                            }
                        }
                    }
                    1 => {
                        for (p, t) in self.g.iter_pos() {
                            if !f(num(&p, w, h), t) {
                                break;
                            }
                        }
                    }
                    _ => {
                        for (i, t) in (&self.g).into_iter().enumerate() {
                            if !f(i as u32, t) {
                                break;
                            }
                        }
                    }
                }
            }
            fn walk_mut(&mut self, how: u64, f: &mut dyn FnMut(u32, &mut $t) -> bool) {
                match how {
                    0 => {
                        for (i, t) in self.g.iter_mut().enumerate() {
                            if !f(i as u32, t) {
                                break;
                            }
                        }
                    }
                    _ => {
                        for (i, t) in (&mut self.g).into_iter().enumerate() {
                            if !f(i as u32, t) {
                                break;
                            }
                        }
                    }
                }
            }
            fn extend(&mut self, s: Lazy<Pairs<$t>>) {
                let w = P::WIDTH as u32;
                let Lazy(it, bad) = s;
                Extend::<(P, $t)>::extend(&mut self.g, Lazy(it.map(move |(c, t)| (at::<P>(c, w), t)), bad))
            }
            fn vecvec(&mut self, v: Vec<Vec<$t>>) -> Result<(), Error> {
                self.g.extend_from_vecvec(v)
            }
            fn dup(&self) -> Box<dyn GridObj<$t>> {
                Box::new(G { g: self.g.clone(), rot: self.rot })
            }
            fn clone_from(&mut self, o: &dyn GridObj<$t>) {
                if let Some(o) = o.any().downcast_ref::<Self>() {
                    Clone::clone_from(&mut self.g, &o.g);
                }
            }
            fn same(&self, o: &dyn GridObj<$t>) -> bool {
                let o = o.any().downcast_ref::<Self>().expect("harness: same shape");
                self.g == o.g
            }
            fn hash(&self) -> u64 {
                let mut h = DefaultHasher::new();
                self.g.hash(&mut h);
                h.finish()
            }
            fn consume(self: Box<Self>, from: &mut dyn FnMut(bool) -> Option<bool>, sink: &mut dyn FnMut($t)) {
                use ends::{One as _, Two as _};
                let mut it = ends::Ends(self.g.into_iter());
                while let Some(back) = from((&mut it).two()) {
                    match if back { (&mut it).back() } else { it.0.next() } {
                        Some(t) => sink(t),
                        None => break,
                    }
                }
            }
            fn inner(self: Box<Self>) -> Vec<$t> {
                Vec::from(self.g.into_inner())
            }
            fn render(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
                put_any(&self.g, spec, width, out)
            }
            fn render_io(&self, spec: usize, width: usize, out: &mut dyn std::io::Write) -> std::io::Result<()> {
                put_any_io(&self.g, spec, width, out)
            }
            $($extra)*
        }

        impl<P: Cell, const SIZE: usize> Shape<$t> for S<$t, P, SIZE> {
            fn w(&self) -> u32 {
                P::WIDTH as u32
            }
            fn h(&self) -> u32 {
                P::HEIGHT as u32
            }
            fn name(&self) -> String {
                format!("{}x{}", P::WIDTH, P::HEIGHT)
            }
            fn default(&self) -> Box<dyn GridObj<$t>> {
                Box::new(G { g: Grid::<$t, P, SIZE>::default(), rot: self.0 })
            }
            fn collect(&self, s: Lazy<&mut dyn Iterator<Item = $t>>) -> Box<dyn GridObj<$t>> {
                Box::new(G { g: <Grid<$t, P, SIZE> as FromIterator<$t>>::from_iter(s), rot: self.0 })
            }
            fn rows(&self, v: Vec<Vec<$t>>) -> Result<Box<dyn GridObj<$t>>, Error> {
                Ok(Box::new(G { g: Grid::<$t, P, SIZE>::try_from(v)?, rot: self.0 }))
            }
            $($shape_extra)*
        }
    };
}

/// A grid shape.
#[allow(clippy::type_complexity)]
pub struct S<T: 'static, P: PosT + 'static, const SIZE: usize>(Option<Rot<Grid<T, P, SIZE>>>);

grid_obj!(Tok, {}, {});
grid_obj!(Num, {
    fn extend_refs(&mut self, s: Lazy<&mut dyn Iterator<Item = (u32, &'static Num)>>) {
        let w = P::WIDTH as u32;
        let Lazy(it, bad) = s;
        Extend::<(P, &'static Num)>::extend(&mut self.g, Lazy(it.map(move |(c, t)| (at::<P>(c, w), t)), bad))
    }
    fn extend_pairs(&mut self, s: &[(u32, Num)], each: &mut dyn FnMut()) {
        let w = P::WIDTH as u32;
        let v: Vec<(P, Num)> = s.iter().map(|(c, t)| (at::<P>(*c, w), *t)).collect();
        Extend::extend(&mut self.g, v.iter().inspect(|_| each()));
    }
    fn neg(self: Box<Self>) -> Box<dyn GridObj<Num>> {
        Box::new(G { g: -self.g, rot: self.rot })
    }
}, {
    fn repeat(&self, v: Num) -> Box<dyn GridObj<Num>> {
        Box::new(G { g: Grid::<Num, P, SIZE>::repeat(v), rot: self.0 })
    }
    fn collect_refs(&self, s: Lazy<&mut dyn Iterator<Item = &'static Num>>) -> Box<dyn GridObj<Num>> {
        Box::new(G { g: <Grid<Num, P, SIZE> as FromIterator<&'static Num>>::from_iter(s), rot: self.0 })
    }
});

fn rot<T, const W: u16, const SIZE: usize>(g: &mut Grid<T, Pos<W, W>, SIZE>, cw: bool) {
    if cw {
        g.rotate_cw()
    } else {
        g.rotate_cc()
    }
}

/// Spelt as users spell them: the library's macros choose the size.
macro_rules! plain {
    ($t:ty, $x:literal, $y:literal) => {{
        type M = sqrid::sqrid_create!($x, $y, false);
        &S::<$t, Pos<$x, $y>, { <sqrid::grid_create!(M, $t) as GridParts>::LEN }>(None)
    }};
}
macro_rules! square {
    ($t:ty, $x:literal) => {{
        type M = sqrid::sqrid_create!($x, $x, true);
        &S::<$t, Pos<$x, $x>, { <sqrid::grid_create!(M, $t) as GridParts>::LEN }>(Some(
            rot::<$t, $x, { <sqrid::grid_create!(M, $t) as GridParts>::LEN }>,
        ))
    }};
}
macro_rules! shapes {
    ($t:ty) => {
        &[
            square!($t, 2),
            plain!($t, 1, 0),
            square!($t, 1),
            square!($t, 0),
            plain!($t, 0, 3),
            plain!($t, 3, 2),
            square!($t, 3),
            square!($t, 4),
            plain!($t, 1, 6),
            &S::<$t, SimPos<4, 2>, 15>(None),
            &S::<$t, SimPos<2, 2>, 9>(None),
            square!($t, 5),
            square!($t, 6),
            plain!($t, 10, 2),
            plain!($t, 3, 10),
            square!($t, 11),
            plain!($t, 100, 1),
            plain!($t, 2, 101),
            plain!($t, 257, 0),
            plain!($t, 1, 259),
            square!($t, 15),
            plain!($t, 514, 1),
            plain!($t, 0, 600),
        ]
    };
}
pub static TOKS: &[&dyn Shape<Tok>] = shapes!(Tok);
pub static NUMS: &[&dyn Shape<Num>] = shapes!(Num);
/// More cells than 16 bits can count.
pub static HUGE: &[&dyn Shape<Num>] = &[
    &S::<Num, Pos<255, 257>, 66048>(None),
    &S::<Num, Pos<256, 256>, 66049>(Some(rot::<Num, 256, 66049>)),
    &S::<Num, Pos<512, 512>, 263169>(Some(rot::<Num, 512, 263169>)),
    &S::<Num, Pos<65535, 1>, 131072>(None),
    &S::<Num, Pos<1, 65535>, 131072>(None),
];
/// Shapes rendered only: labels on either side of one more digit.
pub static WIDE: &[&dyn Shape<Num>] = &[
    &S::<Num, Pos<1001, 0>, 1002>(None),
    &S::<Num, Pos<0, 1000>, 1001>(None),
    &S::<Num, Pos<9, 9>, 100>(None),
    &S::<Num, Pos<99, 0>, 100>(None),
    &S::<Num, Pos<9, 0>, 10>(None),
    &S::<Num, Pos<10, 0>, 11>(None),
    &S::<Num, Pos<98, 0>, 99>(None),
    &S::<Num, Pos<100, 0>, 101>(None),
    &S::<Num, Pos<101, 0>, 102>(None),
    &S::<Num, Pos<998, 0>, 999>(None),
    &S::<Num, Pos<999, 0>, 1000>(None),
    &S::<Num, Pos<1000, 0>, 1001>(None),
    &S::<Num, Pos<0, 9>, 10>(None),
    &S::<Num, Pos<0, 10>, 11>(None),
    &S::<Num, Pos<0, 98>, 99>(None),
    &S::<Num, Pos<0, 99>, 100>(None),
    &S::<Num, Pos<0, 100>, 101>(None),
    &S::<Num, Pos<0, 101>, 102>(None),
    &S::<Num, Pos<0, 998>, 999>(None),
    &S::<Num, Pos<0, 999>, 1000>(None),
    &S::<Num, Pos<0, 1001>, 1002>(None),
    &S::<Num, Pos<10, 10>, 121>(None),
    &S::<Num, Pos<1000, 1>, 2002>(None),
];

/// Five-digit labels.
pub static FARTHEST: &[&dyn Shape<Num>] = &[
    &S::<Num, Pos<10000, 0>, 10001>(None),
    &S::<Num, Pos<0, 10000>, 10001>(None),
    &S::<Num, Pos<9999, 0>, 10000>(None),
    &S::<Num, Pos<0, 65535>, 65536>(None),
    &S::<Num, Pos<65535, 0>, 65536>(None),
    &S::<Num, Pos<0, 9999>, 10000>(None),
    &S::<Num, Pos<9998, 0>, 9999>(None),
];

/* ----------------------------------------------------------- boolean grids */

pub trait BoolObj {
    fn any(&self) -> &dyn Any;
    fn get(&self, c: u32, how: u64) -> bool;
    fn set(&mut self, c: u32, v: bool, how: u64);
    fn set_iter(&mut self, v: bool, s: &mut dyn Iterator<Item = u32>);
    fn flip_h(&mut self);
    fn flip_v(&mut self);
    fn rotate(&mut self, cw: bool);
    /// 0: iter, 1: iter_pos, 2: iter_t, 3: iter_f.
    fn walk(&self, how: u64, f: &mut dyn FnMut(u32, bool) -> bool);
    fn dup(&self) -> Box<dyn BoolObj>;
    fn same(&self, o: &dyn BoolObj) -> bool;
    fn cmp(&self, o: &dyn BoolObj) -> std::cmp::Ordering;
    fn hash(&self) -> u64;
    /// Copy the other's words into this grid.
    fn words_from(&mut self, o: &dyn BoolObj, how: u64);
    fn render(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result;
    fn render_io(&self, spec: usize, width: usize, out: &mut dyn std::io::Write) -> std::io::Result<()>;
}
pub trait BoolShape: Sync {
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn name(&self) -> String;
    fn square(&self) -> bool;
    /// 0: repeat(v), 1: ALL_TRUE / ALL_FALSE, 2: default (false only).
    fn constant(&self, v: bool, how: u64) -> Box<dyn BoolObj>;
    fn collect_bools(&self, s: Lazy<&mut dyn Iterator<Item = bool>>) -> Box<dyn BoolObj>;
    fn collect_cells(&self, s: Lazy<&mut dyn Iterator<Item = u32>>) -> Box<dyn BoolObj>;
}

pub struct B<P: PosT, const WORDS: usize> {
    g: Gridbool<P, WORDS>,
    rot: Option<Rot<Gridbool<P, WORDS>>>,
}
impl<P: Cell, const WORDS: usize> BoolObj for B<P, WORDS> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn get(&self, c: u32, how: u64) -> bool {
        let p = at::<P>(c, P::WIDTH as u32);
        match how {
            0 => self.g.get(&p),
            1 => self.g[p],
            _ => self.g[&p],
        }
    }
    fn set(&mut self, c: u32, v: bool, how: u64) {
        let p = at::<P>(c, P::WIDTH as u32);
        match (how, v) {
            (0, _) => self.g.set(&p, v),
            (_, true) => self.g.set_t(&p),
            (_, false) => self.g.set_f(&p),
        }
    }
    fn set_iter(&mut self, v: bool, s: &mut dyn Iterator<Item = u32>) {
        let it = s.map(|c| at::<P>(c, P::WIDTH as u32));
        if v {
            self.g.set_iter_t(it)
        } else {
            self.g.set_iter_f(it)
        }
    }
    fn flip_h(&mut self) {
        self.g.flip_h()
    }
    fn flip_v(&mut self) {
        self.g.flip_v()
    }
    fn rotate(&mut self, cw: bool) {
        (self.rot.unwrap())(&mut self.g, cw)
    }
    fn walk(&self, how: u64, f: &mut dyn FnMut(u32, bool) -> bool) {
        let (w, h) = (P::WIDTH as u32, P::HEIGHT as u32);
        match how {
            0 => {
                for (i, v) in self.g.iter().enumerate() {
                    if !f(i as u32, v) {
                        break;
                    }
                }
            }
            1 => {
                for (p, v) in self.g.iter_pos() {
                    if !f(num(&p, w, h), v) {
                        break;
                    }
                }
            }
            2 => {
                for p in self.g.iter_t() {
                    if !f(num(&p, w, h), true) {
                        break;
                    }
                }
            }
            _ => {
                for p in self.g.iter_f() {
                    if !f(num(&p, w, h), false) {
                        break;
                    }
                }
            }
        }
    }
    fn dup(&self) -> Box<dyn BoolObj> {
        #[allow(clippy::clone_on_copy)]
        Box::new(B { g: self.g.clone(), rot: self.rot })
    }
    fn same(&self, o: &dyn BoolObj) -> bool {
        self.g == o.any().downcast_ref::<Self>().expect("harness: same shape").g
    }
    fn cmp(&self, o: &dyn BoolObj) -> std::cmp::Ordering {
        self.g.cmp(&o.any().downcast_ref::<Self>().expect("harness: same shape").g)
    }
    fn hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.g.hash(&mut h);
        h.finish()
    }
    fn words_from(&mut self, o: &dyn BoolObj, how: u64) {
        let o = o.any().downcast_ref::<Self>().expect("harness: same shape");
        *self.g.as_inner_mut() = match how {
            0 => *o.g.as_inner(),
            _ => o.g.into_inner(),
        };
    }
    fn render(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
        put_any(&self.g, spec, width, out)
    }
    fn render_io(&self, spec: usize, width: usize, out: &mut dyn std::io::Write) -> std::io::Result<()> {
        put_any_io(&self.g, spec, width, out)
    }
}

/// A shape of bit grid: its rotations, a note for the logs, and where its all-true and
/// all-false grids come from.
pub struct BS<P: PosT + 'static, const WORDS: usize>(
    Option<Rot<Gridbool<P, WORDS>>>,
    &'static str,
    fn(bool, u64) -> Gridbool<P, WORDS>,
);
/// From the library's constants, which the compiler evaluates.
fn consts<P: Cell, const WORDS: usize>(v: bool, how: u64) -> Gridbool<P, WORDS> {
    match (how, v) {
        (0, _) => Gridbool::<P, WORDS>::repeat(v),
        (_, true) => Gridbool::<P, WORDS>::ALL_TRUE,
        (1, false) => Gridbool::<P, WORDS>::ALL_FALSE,
        _ => Gridbool::<P, WORDS>::default(),
    }
}
/// Made at run time: for shapes with words to spare, where a library that gets them wrong
/// should fail a run, not the build of the simulator.
fn made<P: Cell, const WORDS: usize>(v: bool, _: u64) -> Gridbool<P, WORDS> {
    Gridbool::<P, WORDS>::repeat(v)
}
impl<P: Cell, const WORDS: usize> BoolShape for BS<P, WORDS> {
    fn w(&self) -> u32 {
        P::WIDTH as u32
    }
    fn h(&self) -> u32 {
        P::HEIGHT as u32
    }
    fn name(&self) -> String {
        format!("{}x{} in {} words{}", P::WIDTH, P::HEIGHT, WORDS, self.1)
    }
    fn square(&self) -> bool {
        self.0.is_some()
    }
    fn constant(&self, v: bool, how: u64) -> Box<dyn BoolObj> {
        let g = self.2(v, how);
        Box::new(B { g, rot: self.0 })
    }
    fn collect_bools(&self, s: Lazy<&mut dyn Iterator<Item = bool>>) -> Box<dyn BoolObj> {
        Box::new(B { g: <Gridbool<P, WORDS> as FromIterator<bool>>::from_iter(s), rot: self.0 })
    }
    fn collect_cells(&self, s: Lazy<&mut dyn Iterator<Item = u32>>) -> Box<dyn BoolObj> {
        let w = P::WIDTH as u32;
        let Lazy(it, bad) = s;
        Box::new(B { g: <Gridbool<P, WORDS> as FromIterator<P>>::from_iter(Lazy(it.map(move |c| at::<P>(c, w)), bad)), rot: self.0 })
    }
}
fn brot<const W: u16, const WORDS: usize>(g: &mut Gridbool<Pos<W, W>, WORDS>, cw: bool) {
    if cw {
        g.rotate_cw()
    } else {
        g.rotate_cc()
    }
}
macro_rules! bools {
    ($x:literal, $y:literal) => {{
        type M = sqrid::sqrid_create!($x, $y, false);
        &BS::<Pos<$x, $y>, { <sqrid::gridbool_create!(M) as GridParts>::LEN }>(None, "", consts)
    }};
}
macro_rules! bsquare {
    ($w:literal) => {{
        type M = sqrid::sqrid_create!($w, $w, false);
        &BS::<Pos<$w, $w>, { <sqrid::gridbool_create!(M) as GridParts>::LEN }>(
            Some(brot::<$w, { <sqrid::gridbool_create!(M) as GridParts>::LEN }>),
            "",
            consts,
        )
    }};
}
macro_rules! bsq {
    ($w:literal, $n:literal) => {
        &BS::<Pos<$w, $w>, $n>(Some(brot::<$w, $n>), "", made)
    };
}
pub static BOOLS: &[&dyn BoolShape] = &[
    bsquare!(2),
    bools!(2, 1),
    bsquare!(1),
    bsquare!(0),
    bsquare!(3),
    bsquare!(4),
    bsquare!(5),
    bsquare!(6),
    bsquare!(7),
    bsq!(7, 3),
    bsquare!(8),
    bsquare!(11),
    bools!(7, 3),
    &BS::<Pos<7, 3>, 2>(None, "", made),
    bools!(3, 7),
    bools!(4, 6),
    bools!(10, 2),
    bools!(32, 0),
    bools!(0, 32),
    bools!(30, 0),
    bools!(15, 1),
    bools!(15, 3),
    &BS::<SimPos<4, 6>, 2>(None, " user type", consts),
    &BS::<SimPos<3, 7>, 1>(None, " user type", consts),
    bools!(9, 10),
    bools!(99, 2),
    bools!(2, 100),
    bools!(258, 1),
    bools!(1, 260),
    bools!(31, 1),
    bools!(31, 2),
    bools!(63, 2),
    bsquare!(15),
    bsquare!(31),
    bsq!(31, 33),
    &BS::<Pos<31, 2>, 4>(None, " spare word", made),
    &BS::<Pos<63, 2>, 7>(None, " spare word", made),
    &BS::<Pos<31, 0>, 2>(None, " spare word", made),
    &BS::<Pos<15, 1>, 2>(None, " spare word", made),
    &BS::<Pos<0, 31>, 2>(None, " spare word", made),
    bools!(95, 4),
    bools!(520, 1),
];
/// More cells than 16 bits can count.
pub static HUGE_BOOLS: &[&dyn BoolShape] = &[
    bsquare!(256),
    bsquare!(512),
    bools!(257, 255),
    bools!(65535, 1),
    &BS::<Pos<1, 65535>, 4097>(None, "", made),
];

/* --------------------------------------------------------- storage traits -- */

pub trait MapObj {
    fn get(&self, c: u32) -> i64;
    fn set(&mut self, c: u32, v: i64);
    fn dup(&self) -> Box<dyn MapObj>;
}
pub trait SetObj {
    fn contains(&self, c: u32) -> bool;
    fn insert(&mut self, c: u32);
    fn remove(&mut self, c: u32);
    fn set(&mut self, c: u32, v: bool);
    fn dup(&self) -> Box<dyn SetObj>;
}
struct M<M, P, const WORDS: usize, const SIZE: usize>(M, u32, PhantomData<P>);
impl<X: MapPos<i64, P, WORDS, SIZE> + Clone + 'static, P: Cell, const WORDS: usize, const SIZE: usize> MapObj for M<X, P, WORDS, SIZE> {
    fn get(&self, c: u32) -> i64 {
        *MapPos::<i64, P, WORDS, SIZE>::get(&self.0, &at::<P>(c, self.1))
    }
    fn set(&mut self, c: u32, v: i64) {
        MapPos::<i64, P, WORDS, SIZE>::set(&mut self.0, at::<P>(c, self.1), v)
    }
    fn dup(&self) -> Box<dyn MapObj> {
        Box::new(M::<X, P, WORDS, SIZE>(self.0.clone(), self.1, PhantomData))
    }
}
struct St<M, P, const WORDS: usize, const SIZE: usize>(M, u32, PhantomData<P>);
impl<X: SetPos<P, WORDS, SIZE> + Clone + 'static, P: Cell, const WORDS: usize, const SIZE: usize> SetObj for St<X, P, WORDS, SIZE> {
    fn contains(&self, c: u32) -> bool {
        SetPos::<P, WORDS, SIZE>::contains(&self.0, &at::<P>(c, self.1))
    }
    fn insert(&mut self, c: u32) {
        SetPos::<P, WORDS, SIZE>::insert(&mut self.0, at::<P>(c, self.1))
    }
    fn remove(&mut self, c: u32) {
        SetPos::<P, WORDS, SIZE>::remove(&mut self.0, &at::<P>(c, self.1))
    }
    fn set(&mut self, c: u32, v: bool) {
        SetPos::<P, WORDS, SIZE>::set(&mut self.0, at::<P>(c, self.1), v)
    }
    fn dup(&self) -> Box<dyn SetObj> {
        Box::new(St::<X, P, WORDS, SIZE>(self.0.clone(), self.1, PhantomData))
    }
}

pub trait Stores: Sync {
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn name(&self) -> String;
    /// Position code that can be made to panic.
    fn touchy(&self) -> bool;
    fn maps(&self, init: i64, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn MapObj>)>;
    fn sets(&self, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn SetObj>)>;
}
pub struct Fixed<P, const WORDS: usize, const SIZE: usize>(PhantomData<fn() -> P>, bool);
pub struct Open<P, const W: u32, const H: u32>(PhantomData<fn() -> P>, &'static str);

fn open_maps<P: Cell, const WORDS: usize, const SIZE: usize>(w: u32, init: i64, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn MapObj>)> {
    let mut v: Vec<(&'static str, Box<dyn MapObj>)> = vec![];
    let m: (BTreeMap<P, i64>, i64) = MapPos::<i64, P, WORDS, SIZE>::new(init);
    v.push(("btree", Box::new(M::<_, P, WORDS, SIZE>(m, w, PhantomData))));
    rekey();
    let m: (HashMap<P, i64>, i64) = MapPos::<i64, P, WORDS, SIZE>::new(init);
    v.push(("hash", Box::new(M::<_, P, WORDS, SIZE>(m, w, PhantomData))));
    rekey();
    let m: (HashMap<P, i64>, i64) = MapPos::<i64, P, WORDS, SIZE>::new(init);
    v.push(("hash, other keys", Box::new(M::<_, P, WORDS, SIZE>(m, w, PhantomData))));
    v
}
fn open_sets<P: Cell, const WORDS: usize, const SIZE: usize>(w: u32, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn SetObj>)> {
    let mut v: Vec<(&'static str, Box<dyn SetObj>)> = vec![];
    v.push(("btree", Box::new(St::<_, P, WORDS, SIZE>(BTreeSet::<P>::default(), w, PhantomData))));
    rekey();
    v.push(("hash", Box::new(St::<_, P, WORDS, SIZE>(HashSet::<P>::default(), w, PhantomData))));
    rekey();
    v.push(("hash, other keys", Box::new(St::<_, P, WORDS, SIZE>(HashSet::<P>::default(), w, PhantomData))));
    v
}

impl<P: Cell, const WORDS: usize, const SIZE: usize> Stores for Fixed<P, WORDS, SIZE> {
    fn w(&self) -> u32 {
        P::WIDTH as u32
    }
    fn h(&self) -> u32 {
        P::HEIGHT as u32
    }
    fn name(&self) -> String {
        format!("{}{}x{}", if self.1 { "user type " } else { "" }, P::WIDTH, P::HEIGHT)
    }
    fn touchy(&self) -> bool {
        self.1
    }
    fn maps(&self, init: i64, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn MapObj>)> {
        let g: Grid<i64, P, SIZE> = MapPos::<i64, P, WORDS, SIZE>::new(init);
        let mut v: Vec<(&'static str, Box<dyn MapObj>)> = vec![("grid", Box::new(M::<_, P, WORDS, SIZE>(g, P::WIDTH as u32, PhantomData)))];
        v.extend(open_maps::<P, WORDS, SIZE>(P::WIDTH as u32, init, rekey));
        v
    }
    fn sets(&self, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn SetObj>)> {
        let g = Gridbool::<P, WORDS>::default();
        let mut v: Vec<(&'static str, Box<dyn SetObj>)> = vec![("gridbool", Box::new(St::<_, P, WORDS, SIZE>(g, P::WIDTH as u32, PhantomData)))];
        v.extend(open_sets::<P, WORDS, SIZE>(P::WIDTH as u32, rekey));
        v
    }
}
impl<P: Cell, const W: u32, const H: u32> Stores for Open<P, W, H> {
    fn w(&self) -> u32 {
        W
    }
    fn h(&self) -> u32 {
        H
    }
    fn name(&self) -> String {
        format!("tuple {} window {W}x{H}", self.1)
    }
    fn touchy(&self) -> bool {
        false
    }
    fn maps(&self, init: i64, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn MapObj>)> {
        open_maps::<P, 0, 0>(W, init, rekey)
    }
    fn sets(&self, rekey: &mut dyn FnMut()) -> Vec<(&'static str, Box<dyn SetObj>)> {
        open_sets::<P, 0, 0>(W, rekey)
    }
}
pub static STORES: &[&dyn Stores] = &[
    &Fixed::<Pos<2, 2>, 1, 9>(PhantomData, false),
    &Fixed::<Pos<1, 4>, 1, 10>(PhantomData, false),
    &Fixed::<SimPos<2, 2>, 1, 9>(PhantomData, true),
    &Fixed::<SimPos<4, 6>, 2, 35>(PhantomData, true),
    &Fixed::<Pos<7, 3>, 1, 32>(PhantomData, false),
    &Fixed::<Pos<6, 6>, 2, 49>(PhantomData, false),
    &Fixed::<Pos<0, 40>, 2, 41>(PhantomData, false),
    &Fixed::<Pos<19, 14>, 10, 300>(PhantomData, false),
    &Fixed::<Pos<1, 260>, 17, 522>(PhantomData, false),
    &Fixed::<Pos<259, 0>, 9, 260>(PhantomData, false),
    &Open::<(u8, u8), 7, 6>(PhantomData, "u8"),
    &Open::<(u16, u16), 6, 5>(PhantomData, "u16"),
    &Open::<(u32, u32), 5, 5>(PhantomData, "u32"),
    &Open::<(i16, i16), 6, 5>(PhantomData, "i16"),
    &Open::<(i32, i32), 7, 7>(PhantomData, "i32"),
    &Open::<(i8, i8), 5, 4>(PhantomData, "i8"),
    &Open::<(u64, u64), 6, 5>(PhantomData, "u64"),
    &Open::<(u128, u128), 4, 5>(PhantomData, "u128"),
    &Open::<OffPos, 7, 5>(PhantomData, "user type off zero"),
];
/// More cells than 16 bits can count.
pub static HUGE_STORES: &[&dyn Stores] = &[
    &Fixed::<Pos<256, 255>, 2056, 65792>(PhantomData, false),
    &Fixed::<Pos<1, 65535>, 4096, 131072>(PhantomData, false),
    &Open::<(i8, i8), 256, 256>(PhantomData, "i8 (all of it)"),
];
