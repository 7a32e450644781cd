//! One erased interface over the library's search API for many grid shapes,
//! position types, direction sets and storage flavours.

use simcore::cells::*;
use simcore::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::rc::Rc;

pub type Go<'a> = &'a dyn Fn(u32, usize) -> Option<u32>;
pub type GoC<'a> = &'a dyn Fn(u32, usize) -> Option<(u32, usize)>;
pub type Found<'a> = &'a dyn Fn(u32) -> bool;
pub type GoRc = Rc<dyn Fn(u32, usize) -> Option<u32>>;
pub type GoCRc = Rc<dyn Fn(u32, usize) -> Option<(u32, usize)>>;
pub type Item = (u32, usize);

/// An in-progress library iteration.
pub trait Cursor {
    fn step(&mut self) -> Option<Vec<Item>>;
    fn dup(&self) -> Box<dyn Cursor>;
    fn hint(&self) -> (usize, Option<usize>);
    fn skip_to(&mut self, k: usize) -> Option<Vec<Item>>;
    /// Consumes what is left in one call (see `Rest`).
    fn rest(self: Box<Self>, how: u64) -> Rest;
}

#[derive(Debug, PartialEq)]
pub enum Rest {
    All(Vec<Vec<Item>>),
    Count(usize),
    Last(Option<Vec<Item>>),
}

fn rest_of<T, I: Iterator<Item = T>>(it: I, how: u64, show: impl Fn(T) -> Vec<Item>) -> Rest {
    match how {
        0 => Rest::All(it.map(show).collect()),
        1 => {
            let mut v = vec![];
            it.for_each(|x| v.push(show(x)));
            Rest::All(v)
        }
        2 => Rest::All(it.fold(vec![], |mut v, x| {
            v.push(show(x));
            v
        })),
        3 => Rest::Count(it.count()),
        4 => Rest::Last(it.last().map(show)),
        5 => {
            // Through an adaptor that fuses and peeks.
            let mut it = it.fuse().peekable();
            let mut v = vec![];
            while it.peek().is_some() {
                v.extend(it.next().map(&show));
            }
            Rest::All(v)
        }
        _ => {
            let mut it = it;
            let mut v: Vec<Vec<Item>> = it.by_ref().take(2).map(&show).collect();
            v.extend(it.step_by(1).map(&show));
            Rest::All(v)
        }
    }
}

pub trait Space: Sync {
    fn name(&self) -> String;
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn d(&self) -> bool;
    fn flavors(&self) -> &'static [u8];
    fn iter_flavors(&self) -> &'static [u8];
    fn bfs(&self, fl: u8, go: Go, o: u32, found: Found) -> Result<(u32, Vec<Dir>), Error>;
    fn astar(&self, fl: u8, go: Go, o: u32, dest: u32) -> Result<Vec<Dir>, Error>;
    fn ucs(&self, fl: u8, go: GoC, o: u32, dest: u32) -> Result<Vec<Dir>, Error>;
    fn bf_iter(&self, fl: u8, go: GoRc, o: u32) -> Box<dyn Cursor>;
    fn astar_iter(&self, fl: u8, go: GoRc, o: u32, dest: u32) -> Box<dyn Cursor>;
    fn ucs_iter(&self, fl: u8, go: GoCRc, o: u32) -> Box<dyn Cursor>;
    fn rebuild(&self, fl: u8, map: &[Option<usize>], o: u32, dest: u32) -> Result<Vec<Dir>, Error>;
    /// Rebuilds between a window position and a corner of the position type
    /// far outside the window; None when the type has no such corner.
    fn rebuild_far(&self, _fl: u8, _map: &[Option<usize>], _from_far: bool, _corner: bool, _c: u32) -> Option<Result<Vec<Dir>, Error>> {
        None
    }
    /// Runs a search to obtain a came-from map through a lossy caller store,
    /// then reports the map's content and the path rebuilt from it.
    #[allow(clippy::type_complexity)]
    fn lossy(&self, algo: u8, go: GoC, o: u32, dest: u32, lose: u64) -> Option<(Vec<Option<usize>>, Result<Vec<Dir>, Error>)>;
}

pub const FLAVOR: [&str; 9] = [
    "Sqrid", "Sqrid_grid", "Sqrid_hash", "Sqrid_btree", "free_grid", "free_hash", "free_btree", "caller_store", "mixed_mapmov",
];
pub const ITER_FLAVOR: [&str; 5] = ["default", "grid", "hash", "btree", "caller_store"];

fn cell<P: Cell>(c: u32, w: u32) -> P {
    P::at(c % w, c / w)
}
fn num<P: Cell>(p: &P, w: u32, h: u32) -> u32 {
    let (x, y) = p.xy();
    if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
        fail(
            "foreign-position",
            format!("the library produced position {p:?} outside the world (column {x}, row {y} of {w}x{h})"),
        );
    }
    y as u32 * w + x as u32
}

type HMap<T, P> = (HashMap<P, T>, T);
type BMap<T, P> = (BTreeMap<P, T>, T);

struct BfCur<I>(I, u32, u32);
impl<P: Cell, I: Iterator<Item = Vec<(P, Dir)>> + Clone + 'static> Cursor for BfCur<I> {
    fn step(&mut self) -> Option<Vec<Item>> {
        let (w, h) = (self.1, self.2);
        self.0.next().map(|v| v.iter().map(|(p, d)| (num(p, w, h), *d as usize)).collect())
    }
    fn dup(&self) -> Box<dyn Cursor> {
        Box::new(BfCur(self.0.clone(), self.1, self.2))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn skip_to(&mut self, k: usize) -> Option<Vec<Item>> {
        let (w, h) = (self.1, self.2);
        self.0.nth(k).map(|v| v.iter().map(|(p, d)| (num(p, w, h), *d as usize)).collect())
    }
    fn rest(self: Box<Self>, how: u64) -> Rest {
        let (w, h) = (self.1, self.2);
        rest_of(self.0, how, |v| v.iter().map(|(p, d)| (num(p, w, h), *d as usize)).collect())
    }
}
struct OneCur<I>(I, u32, u32);
impl<P: Cell, I: Iterator<Item = (P, Dir)> + Clone + 'static> Cursor for OneCur<I> {
    fn step(&mut self) -> Option<Vec<Item>> {
        let (w, h) = (self.1, self.2);
        self.0.next().map(|(p, d)| vec![(num(&p, w, h), d as usize)])
    }
    fn dup(&self) -> Box<dyn Cursor> {
        Box::new(OneCur(self.0.clone(), self.1, self.2))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn skip_to(&mut self, k: usize) -> Option<Vec<Item>> {
        let (w, h) = (self.1, self.2);
        self.0.nth(k).map(|(p, d)| vec![(num(&p, w, h), d as usize)])
    }
    fn rest(self: Box<Self>, how: u64) -> Rest {
        let (w, h) = (self.1, self.2);
        rest_of(self.0, how, |(p, d)| vec![(num(&p, w, h), d as usize)])
    }
}

fn dir(i: usize) -> Dir {
    Dir::ALL8[i]
}

/* ------------------------------------------------- flavours without a grid */

/// Everything that needs no Grid/Gridbool: hash, btree, caller stores.
struct Any<P, const D: bool, const WO: usize, const SI: usize>(PhantomData<P>);

impl<P: Cell, const D: bool, const WO: usize, const SI: usize> Any<P, D, WO, SI> {
    fn bfs<const X: u16, const Y: u16>(fl: u8, go: Go, o: u32, found: Found, w: u32, h: u32) -> Result<(u32, Vec<Dir>), Error> {
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let f = |p: P| found(num(&p, w, h));
        let o = cell::<P>(o, w);
        let r = match fl {
            2 => Sqrid::<X, Y, D, WO, SI>::bfs_path_hash::<P, _, _>(g, &o, f),
            3 => Sqrid::<X, Y, D, WO, SI>::bfs_path_btree::<P, _, _>(g, &o, f),
            5 => bf::search_path_hash::<_, _, P, D, WO, SI>(g, &o, f),
            6 => bf::search_path_btree::<_, _, P, D, WO, SI>(g, &o, f),
            7 => bf::search_path::<_, _, SimMap<Option<Dir>>, SimSet, P, D, WO, SI>(g, &o, f),
            _ => match bf::search_mapmov::<_, _, HMap<Option<Dir>, P>, BTreeSet<P>, P, D, WO, SI>(g, &o, f) {
                Err(e) => Err(e),
                Ok((p, m)) => Sqrid::<X, Y, D, WO, SI>::camefrom_into_path(m, &o, &p).map(|v| (p, v)),
            },
        };
        r.map(|(p, v)| (num(&p, w, h), v))
    }
    fn astar<const X: u16, const Y: u16>(fl: u8, go: Go, o: u32, dest: u32, w: u32, h: u32) -> Result<Vec<Dir>, Error> {
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let o = cell::<P>(o, w);
        let t = cell::<P>(dest, w);
        match fl {
            2 => Sqrid::<X, Y, D, WO, SI>::astar_path_hash::<_, P>(g, &o, &t),
            3 => Sqrid::<X, Y, D, WO, SI>::astar_path_btree::<_, P>(g, &o, &t),
            5 => astar::search_path_hash::<_, P, D, WO, SI>(g, &o, &t),
            6 => astar::search_path_btree::<_, P, D, WO, SI>(g, &o, &t),
            7 => astar::search_path::<_, SimMap<Option<Dir>>, SimMap<usize>, P, D, WO, SI>(g, &o, &t),
            _ => {
                let m = astar::search_mapmov::<_, BMap<Option<Dir>, P>, HMap<usize, P>, P, D, WO, SI>(g, &o, &t)?;
                camefrom_into_path::<_, P, WO, SI>(m, &o, &t)
            }
        }
    }
    fn ucs<const X: u16, const Y: u16>(fl: u8, go: GoC, o: u32, dest: u32, w: u32, h: u32) -> Result<Vec<Dir>, Error> {
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, k)| (cell::<P>(c, w), k));
        let o = cell::<P>(o, w);
        let t = cell::<P>(dest, w);
        match fl {
            2 => Sqrid::<X, Y, D, WO, SI>::ucs_path_hash::<_, P>(g, &o, &t),
            3 => Sqrid::<X, Y, D, WO, SI>::ucs_path_btree::<_, P>(g, &o, &t),
            5 => ucs::search_path_hash::<_, P, D, WO, SI>(g, &o, &t),
            6 => ucs::search_path_btree::<_, P, D, WO, SI>(g, &o, &t),
            7 => ucs::search_path::<_, SimMap<Option<Dir>>, SimMap<usize>, P, D, WO, SI>(g, &o, &t),
            _ => {
                let m = ucs::search_mapmov::<_, HMap<Option<Dir>, P>, BMap<usize, P>, P, D, WO, SI>(g, &o, &t)?;
                camefrom_into_path::<_, P, WO, SI>(m, &o, &t)
            }
        }
    }
    fn bf_iter<const X: u16, const Y: u16>(fl: u8, go: GoRc, o: u32, w: u32, h: u32) -> Box<dyn Cursor> {
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let o = cell::<P>(o, w);
        match fl {
            2 => Box::new(BfCur(Sqrid::<X, Y, D, WO, SI>::bf_iter_hash::<P, _>(g, &o), w, h)),
            3 => Box::new(BfCur(Sqrid::<X, Y, D, WO, SI>::bf_iter_btree::<P, _>(g, &o), w, h)),
            _ => Box::new(BfCur(bf::bf_iter::<_, SimSet, P, D, WO, SI>(g, &o), w, h)),
        }
    }
    fn astar_iter(fl: u8, go: GoRc, o: u32, dest: u32, w: u32, h: u32) -> Box<dyn Cursor> {
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let o = cell::<P>(o, w);
        let t = cell::<P>(dest, w);
        match fl {
            2 => Box::new(OneCur(astar::AstarIterator::<_, HMap<usize, P>, P, D, WO, SI>::new(g, &o, &t), w, h)),
            3 => Box::new(OneCur(astar::AstarIterator::<_, BMap<usize, P>, P, D, WO, SI>::new(g, &o, &t), w, h)),
            _ => Box::new(OneCur(astar::AstarIterator::<_, SimMap<usize>, P, D, WO, SI>::new(g, &o, &t), w, h)),
        }
    }
    fn ucs_iter(fl: u8, go: GoCRc, o: u32, w: u32, h: u32) -> Box<dyn Cursor> {
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, k)| (cell::<P>(c, w), k));
        let o = cell::<P>(o, w);
        match fl {
            2 => Box::new(OneCur(ucs::UcsIterator::<_, HMap<usize, P>, P, D, WO, SI>::new(g, &o), w, h)),
            3 => Box::new(OneCur(ucs::UcsIterator::<_, BMap<usize, P>, P, D, WO, SI>::new(g, &o), w, h)),
            _ => Box::new(OneCur(ucs::UcsIterator::<_, SimMap<usize>, P, D, WO, SI>::new(g, &o), w, h)),
        }
    }
    fn rebuild(fl: u8, map: &[Option<usize>], o: u32, dest: u32, w: u32) -> Result<Vec<Dir>, Error> {
        Self::rebuild_between(fl, map, cell::<P>(o, w), cell::<P>(dest, w), w)
    }
    fn rebuild_between(fl: u8, map: &[Option<usize>], po: P, pd: P, w: u32) -> Result<Vec<Dir>, Error> {
        macro_rules! fill {
            ($t:ty) => {{
                let mut m = <$t as MapPos<Option<Dir>, P, WO, SI>>::new(None);
                for (i, e) in map.iter().enumerate() {
                    if let Some(d) = e {
                        MapPos::<Option<Dir>, P, WO, SI>::set(&mut m, cell::<P>(i as u32, w), Some(dir(*d)));
                    }
                }
                camefrom_into_path::<$t, P, WO, SI>(m, &po, &pd)
            }};
        }
        match fl {
            2 => fill!(HMap<Option<Dir>, P>),
            3 => fill!(BMap<Option<Dir>, P>),
            _ => fill!(SimMap<Option<Dir>>),
        }
    }
    #[allow(clippy::type_complexity)]
    fn lossy(algo: u8, go: GoC, o: u32, dest: u32, lose: u64, w: u32, h: u32) -> Option<(Vec<Option<usize>>, Result<Vec<Dir>, Error>)> {
        let g1 = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, _)| cell::<P>(c, w));
        let g2 = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, k)| (cell::<P>(c, w), k));
        let (po, pd) = (cell::<P>(o, w), cell::<P>(dest, w));
        arm_store(0, lose);
        let m: Result<SimMap<Option<Dir>>, Error> = match algo {
            0 => bf::search_mapmov::<_, _, SimMap<Option<Dir>>, BTreeSet<P>, P, D, WO, SI>(g1, &po, |p| num(&p, w, h) == dest).map(|x| x.1),
            1 => astar::search_mapmov::<_, SimMap<Option<Dir>>, BMap<usize, P>, P, D, WO, SI>(g1, &po, &pd),
            _ => ucs::search_mapmov::<_, SimMap<Option<Dir>>, BMap<usize, P>, P, D, WO, SI>(g2, &po, &pd),
        };
        arm_store(0, 0);
        let m = m.ok()?;
        let content: Vec<Option<usize>> = (0..w * h)
            .map(|c| m.m.get(&((c % w) as i64, (c / w) as i64)).and_then(|d| d.map(|d| d as usize)))
            .collect();
        let r = camefrom_into_path::<_, P, WO, SI>(m, &po, &pd);
        Some((content, r))
    }
}

/* --------------------------------------------------------- grid flavours -- */

/// Every flavour, on a position type with a fixed-size grid.
pub struct Full<P, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize>(pub PhantomData<fn() -> P>, pub bool);
/// Grid flavours only (keeps compilation short for the less common shapes).
pub struct Lite<P, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize>(pub PhantomData<fn() -> P>);
/// Tuples of machine integers: no grid flavours; a window of W x H cells.
pub struct Tup<P, const W: u32, const H: u32, const D: bool>(pub PhantomData<fn() -> P>, pub &'static str);

struct GridOnly<P, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize>(PhantomData<P>);
impl<P: Cell, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize> GridOnly<P, X, Y, D, WO, SI> {
    const W: u32 = X as u32 + 1;
    const H: u32 = Y as u32 + 1;
    fn bfs(fl: u8, go: Go, o: u32, found: Found) -> Result<(u32, Vec<Dir>), Error> {
        let (w, h) = (Self::W, Self::H);
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let f = |p: P| found(num(&p, w, h));
        let o = cell::<P>(o, w);
        let r = match fl {
            0 => Sqrid::<X, Y, D, WO, SI>::bfs_path::<P, _, _>(g, &o, f),
            1 => Sqrid::<X, Y, D, WO, SI>::bfs_path_grid::<P, _, _>(g, &o, f),
            _ => bf::search_path_grid::<_, _, P, D, WO, SI>(g, &o, f),
        };
        r.map(|(p, v)| (num(&p, w, h), v))
    }
    fn astar(fl: u8, go: Go, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        let (w, h) = (Self::W, Self::H);
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let (o, t) = (cell::<P>(o, w), cell::<P>(dest, w));
        match fl {
            0 => Sqrid::<X, Y, D, WO, SI>::astar_path::<_, P>(g, &o, &t),
            1 => Sqrid::<X, Y, D, WO, SI>::astar_path_grid::<_, P>(g, &o, &t),
            _ => astar::search_path_grid::<_, P, D, WO, SI>(g, &o, &t),
        }
    }
    fn ucs(fl: u8, go: GoC, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        let (w, h) = (Self::W, Self::H);
        let g = |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, k)| (cell::<P>(c, w), k));
        let (o, t) = (cell::<P>(o, w), cell::<P>(dest, w));
        match fl {
            0 => Sqrid::<X, Y, D, WO, SI>::ucs_path::<_, P>(g, &o, &t),
            1 => Sqrid::<X, Y, D, WO, SI>::ucs_path_grid::<_, P>(g, &o, &t),
            _ => ucs::search_path_grid::<_, P, D, WO, SI>(g, &o, &t),
        }
    }
    fn bf_iter(fl: u8, go: GoRc, o: u32) -> Box<dyn Cursor> {
        let (w, h) = (Self::W, Self::H);
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let o = cell::<P>(o, w);
        match fl {
            0 => Box::new(BfCur(Sqrid::<X, Y, D, WO, SI>::bf_iter::<P, _>(g, &o), w, h)),
            _ => Box::new(BfCur(Sqrid::<X, Y, D, WO, SI>::bf_iter_grid::<P, _>(g, &o), w, h)),
        }
    }
    fn astar_iter(go: GoRc, o: u32, dest: u32) -> Box<dyn Cursor> {
        let (w, h) = (Self::W, Self::H);
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|c| cell::<P>(c, w));
        let (o, t) = (cell::<P>(o, w), cell::<P>(dest, w));
        Box::new(OneCur(astar::AstarIterator::<_, Grid<usize, P, SI>, P, D, WO, SI>::new(g, &o, &t), w, h))
    }
    fn ucs_iter(go: GoCRc, o: u32) -> Box<dyn Cursor> {
        let (w, h) = (Self::W, Self::H);
        let g = move |p: P, d: Dir| go(num(&p, w, h), d as usize).map(|(c, k)| (cell::<P>(c, w), k));
        let o = cell::<P>(o, w);
        Box::new(OneCur(ucs::UcsIterator::<_, Grid<usize, P, SI>, P, D, WO, SI>::new(g, &o), w, h))
    }
    fn rebuild(map: &[Option<usize>], o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        let w = Self::W;
        let mut m = Grid::<Option<Dir>, P, SI>::repeat(None);
        for (i, e) in map.iter().enumerate() {
            m[cell::<P>(i as u32, w)] = e.map(dir);
        }
        Sqrid::<X, Y, D, WO, SI>::camefrom_into_path(m, &cell::<P>(o, w), &cell::<P>(dest, w))
    }
}

impl<P: Cell, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize> Space for Full<P, X, Y, D, WO, SI> {
    fn name(&self) -> String {
        format!("{}{}x{} {}", if self.1 { "user type " } else { "" }, X as u32 + 1, Y as u32 + 1, if D { "8-dir" } else { "4-dir" })
    }
    fn w(&self) -> u32 {
        X as u32 + 1
    }
    fn h(&self) -> u32 {
        Y as u32 + 1
    }
    fn d(&self) -> bool {
        D
    }
    fn flavors(&self) -> &'static [u8] {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8]
    }
    fn iter_flavors(&self) -> &'static [u8] {
        &[0, 1, 2, 3, 4]
    }
    fn bfs(&self, fl: u8, go: Go, o: u32, found: Found) -> Result<(u32, Vec<Dir>), Error> {
        match fl {
            0 | 1 | 4 => GridOnly::<P, X, Y, D, WO, SI>::bfs(fl, go, o, found),
            _ => Any::<P, D, WO, SI>::bfs::<X, Y>(fl, go, o, found, self.w(), self.h()),
        }
    }
    fn astar(&self, fl: u8, go: Go, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        match fl {
            0 | 1 | 4 => GridOnly::<P, X, Y, D, WO, SI>::astar(fl, go, o, dest),
            _ => Any::<P, D, WO, SI>::astar::<X, Y>(fl, go, o, dest, self.w(), self.h()),
        }
    }
    fn ucs(&self, fl: u8, go: GoC, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        match fl {
            0 | 1 | 4 => GridOnly::<P, X, Y, D, WO, SI>::ucs(fl, go, o, dest),
            _ => Any::<P, D, WO, SI>::ucs::<X, Y>(fl, go, o, dest, self.w(), self.h()),
        }
    }
    fn bf_iter(&self, fl: u8, go: GoRc, o: u32) -> Box<dyn Cursor> {
        match fl {
            0 | 1 => GridOnly::<P, X, Y, D, WO, SI>::bf_iter(fl, go, o),
            _ => Any::<P, D, WO, SI>::bf_iter::<X, Y>(fl, go, o, self.w(), self.h()),
        }
    }
    fn astar_iter(&self, fl: u8, go: GoRc, o: u32, dest: u32) -> Box<dyn Cursor> {
        match fl {
            0 | 1 => GridOnly::<P, X, Y, D, WO, SI>::astar_iter(go, o, dest),
            _ => Any::<P, D, WO, SI>::astar_iter(fl, go, o, dest, self.w(), self.h()),
        }
    }
    fn ucs_iter(&self, fl: u8, go: GoCRc, o: u32) -> Box<dyn Cursor> {
        match fl {
            0 | 1 => GridOnly::<P, X, Y, D, WO, SI>::ucs_iter(go, o),
            _ => Any::<P, D, WO, SI>::ucs_iter(fl, go, o, self.w(), self.h()),
        }
    }
    fn rebuild(&self, fl: u8, map: &[Option<usize>], o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        match fl {
            0 | 1 => GridOnly::<P, X, Y, D, WO, SI>::rebuild(map, o, dest),
            _ => Any::<P, D, WO, SI>::rebuild(fl, map, o, dest, self.w()),
        }
    }
    fn lossy(&self, algo: u8, go: GoC, o: u32, dest: u32, lose: u64) -> Option<(Vec<Option<usize>>, Result<Vec<Dir>, Error>)> {
        Any::<P, D, WO, SI>::lossy(algo, go, o, dest, lose, self.w(), self.h())
    }
}

impl<P: Cell, const X: u16, const Y: u16, const D: bool, const WO: usize, const SI: usize> Space for Lite<P, X, Y, D, WO, SI> {
    fn name(&self) -> String {
        format!("{}x{} {}", X as u32 + 1, Y as u32 + 1, if D { "8-dir" } else { "4-dir" })
    }
    fn w(&self) -> u32 {
        X as u32 + 1
    }
    fn h(&self) -> u32 {
        Y as u32 + 1
    }
    fn d(&self) -> bool {
        D
    }
    fn flavors(&self) -> &'static [u8] {
        &[0, 1, 4]
    }
    fn iter_flavors(&self) -> &'static [u8] {
        &[0, 1]
    }
    fn bfs(&self, fl: u8, go: Go, o: u32, found: Found) -> Result<(u32, Vec<Dir>), Error> {
        GridOnly::<P, X, Y, D, WO, SI>::bfs(fl, go, o, found)
    }
    fn astar(&self, fl: u8, go: Go, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        GridOnly::<P, X, Y, D, WO, SI>::astar(fl, go, o, dest)
    }
    fn ucs(&self, fl: u8, go: GoC, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        GridOnly::<P, X, Y, D, WO, SI>::ucs(fl, go, o, dest)
    }
    fn bf_iter(&self, fl: u8, go: GoRc, o: u32) -> Box<dyn Cursor> {
        GridOnly::<P, X, Y, D, WO, SI>::bf_iter(fl, go, o)
    }
    fn astar_iter(&self, _fl: u8, go: GoRc, o: u32, dest: u32) -> Box<dyn Cursor> {
        GridOnly::<P, X, Y, D, WO, SI>::astar_iter(go, o, dest)
    }
    fn ucs_iter(&self, _fl: u8, go: GoCRc, o: u32) -> Box<dyn Cursor> {
        GridOnly::<P, X, Y, D, WO, SI>::ucs_iter(go, o)
    }
    fn rebuild(&self, _fl: u8, map: &[Option<usize>], o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        GridOnly::<P, X, Y, D, WO, SI>::rebuild(map, o, dest)
    }
    fn lossy(&self, _: u8, _: GoC, _: u32, _: u32, _: u64) -> Option<(Vec<Option<usize>>, Result<Vec<Dir>, Error>)> {
        None
    }
}

impl<P: Cell, const W: u32, const H: u32, const D: bool> Space for Tup<P, W, H, D> {
    fn name(&self) -> String {
        format!("tuple {} window {}x{} {}", self.1, W, H, if D { "8-dir" } else { "4-dir" })
    }
    fn w(&self) -> u32 {
        W
    }
    fn h(&self) -> u32 {
        H
    }
    fn d(&self) -> bool {
        D
    }
    fn flavors(&self) -> &'static [u8] {
        &[2, 3, 5, 6, 7, 8]
    }
    fn iter_flavors(&self) -> &'static [u8] {
        &[2, 3, 4]
    }
    fn bfs(&self, fl: u8, go: Go, o: u32, found: Found) -> Result<(u32, Vec<Dir>), Error> {
        Any::<P, D, 0, 0>::bfs::<0, 0>(fl, go, o, found, W, H)
    }
    fn astar(&self, fl: u8, go: Go, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        Any::<P, D, 0, 0>::astar::<0, 0>(fl, go, o, dest, W, H)
    }
    fn ucs(&self, fl: u8, go: GoC, o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        Any::<P, D, 0, 0>::ucs::<0, 0>(fl, go, o, dest, W, H)
    }
    fn bf_iter(&self, fl: u8, go: GoRc, o: u32) -> Box<dyn Cursor> {
        Any::<P, D, 0, 0>::bf_iter::<0, 0>(fl, go, o, W, H)
    }
    fn astar_iter(&self, fl: u8, go: GoRc, o: u32, dest: u32) -> Box<dyn Cursor> {
        Any::<P, D, 0, 0>::astar_iter(fl, go, o, dest, W, H)
    }
    fn ucs_iter(&self, fl: u8, go: GoCRc, o: u32) -> Box<dyn Cursor> {
        Any::<P, D, 0, 0>::ucs_iter(fl, go, o, W, H)
    }
    fn rebuild(&self, fl: u8, map: &[Option<usize>], o: u32, dest: u32) -> Result<Vec<Dir>, Error> {
        Any::<P, D, 0, 0>::rebuild(fl, map, o, dest, W)
    }
    fn rebuild_far(&self, fl: u8, map: &[Option<usize>], from_far: bool, corner: bool, c: u32) -> Option<Result<Vec<Dir>, Error>> {
        let far = if corner { P::first() } else { P::last() };
        let (x, y) = far.xy();
        if x.abs() <= W as i64 + 1 && y.abs() <= H as i64 + 1 {
            return None;
        }
        let near = cell::<P>(c, W);
        let (o, dest) = if from_far { (far, near) } else { (near, far) };
        Some(Any::<P, D, 0, 0>::rebuild_between(fl, map, o, dest, W))
    }
    fn lossy(&self, algo: u8, go: GoC, o: u32, dest: u32, lose: u64) -> Option<(Vec<Option<usize>>, Result<Vec<Dir>, Error>)> {
        Any::<P, D, 0, 0>::lossy(algo, go, o, dest, lose, W, H)
    }
}

macro_rules! words {
    ($w:expr, $h:expr) => {
        ($w * $h) / 32 + 1
    };
}
/// Spelt as users spell them: the library's macros choose words and size.
macro_rules! lite {
    ($w:literal, $h:literal, $d:literal) => {{
        type M = sqrid::sqrid_create!(Pos::<{ $w - 1 }, { $h - 1 }>, $d);
        &Lite::<
            Pos<{ $w - 1 }, { $h - 1 }>,
            { <M as SqridParts>::X },
            { <M as SqridParts>::Y },
            { <M as SqridParts>::D },
            { <M as SqridParts>::WORDS },
            { <M as SqridParts>::SIZE },
        >(PhantomData)
    }};
}
macro_rules! full {
    ($w:literal, $h:literal, $d:literal) => {{
        type M = sqrid::sqrid_create!({ $w - 1 }, { $h - 1 }, $d);
        &Full::<
            sqrid::pos_create!(M),
            { <M as SqridParts>::X },
            { <M as SqridParts>::Y },
            { <M as SqridParts>::D },
            { <M as SqridParts>::WORDS },
            { <M as SqridParts>::SIZE },
        >(PhantomData, false)
    }};
}
macro_rules! user {
    ($w:literal, $h:literal, $d:literal) => {
        &Full::<SimPos<{ $w - 1 }, { $h - 1 }>, { $w - 1 }, { $h - 1 }, $d, { words!($w, $h) }, { $w * $h }>(PhantomData, true)
    };
}

/// Ordered from simplest; the index is a workload choice.
pub static SMALL: &[&dyn Space] = &[
    full!(3, 3, false),
    full!(3, 3, true),
    full!(5, 3, false),
    full!(5, 3, true),
    full!(3, 13, false),
    full!(3, 13, true),
    full!(7, 7, false),
    full!(7, 7, true),
    lite!(4, 8, false),
    lite!(8, 4, true),
    lite!(2, 2, true),
    lite!(1, 10, false),
    lite!(1, 10, true),
    lite!(10, 1, false),
    lite!(2, 7, false),
    lite!(11, 3, false),
    lite!(11, 3, true),
    lite!(8, 8, false),
    lite!(8, 8, true),
    lite!(1, 1, true),
    user!(4, 4, false),
    user!(4, 4, true),
    user!(3, 6, true),
    &Tup::<(u8, u8), 7, 6, false>(PhantomData, "u8"),
    &Tup::<(u16, u16), 6, 5, true>(PhantomData, "u16"),
    &Tup::<(u32, u32), 5, 5, true>(PhantomData, "u32"),
    &Tup::<(i16, i16), 6, 5, false>(PhantomData, "i16"),
    &Tup::<(i32, i32), 7, 7, true>(PhantomData, "i32"),
    &Tup::<(i8, i8), 5, 4, true>(PhantomData, "i8"),
    &Tup::<(u64, u64), 6, 5, false>(PhantomData, "u64"),
    &Tup::<(u128, u128), 4, 5, true>(PhantomData, "u128"),
    &Tup::<OffPos, 7, 5, false>(PhantomData, "user type off zero"),
    &Tup::<OffPos, 7, 5, true>(PhantomData, "user type off zero"),
];

pub static MEDIUM: &[&dyn Space] = &[
    lite!(16, 10, false),
    lite!(3, 31, false),
    lite!(3, 31, true),
    lite!(31, 3, false),
    full!(12, 17, false),
    full!(12, 17, true),
    lite!(20, 20, true),
    lite!(2, 260, false),
    lite!(260, 2, false),
    lite!(30, 15, true),
];

pub static WIDE: &[&dyn Space] = &[lite!(64, 70, false), lite!(61, 61, true), lite!(33, 120, false), lite!(128, 40, true)];

pub static LARGE: &[&dyn Space] = &[
    lite!(260, 256, false),
    lite!(150, 440, true),
    &Tup::<(i8, i8), 256, 256, false>(PhantomData, "i8 (all of it)"),
    &Tup::<(i16, i16), 65536, 1, true>(PhantomData, "i16 (full width)"),
    &Tup::<(u32, u32), 520, 520, true>(PhantomData, "u32"),
    lite!(340, 350, true),
];
