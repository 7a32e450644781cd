//! C08: maps the caller computes instead of storing, with walks of millions
//! of steps over position types of any size.

use simcore::*;
use sqrid::*;
use simcore::cells::STEP;

/// Positions known by plain numbers.
trait Place: PosT + std::ops::Add<Dir, Output = Result<Self, Error>> {
    /// Smallest coordinates, and how many columns and rows there are.
    const RANGE: [i128; 4];
    fn of(x: i128, y: i128) -> Self;
    fn co(&self) -> (i128, i128);
}
macro_rules! place {
    ($($t:ty)*) => { $(
        impl Place for ($t, $t) {
            const RANGE: [i128; 4] = {
                let (least, most) = (<$t>::MIN as i128, if <$t>::MAX as u128 > i128::MAX as u128 { i128::MAX } else { <$t>::MAX as i128 });
                let n = most.saturating_sub(least).saturating_add(1);
                [least, least, n, n]
            };
            fn of(x: i128, y: i128) -> Self {
                (x as $t, y as $t)
            }
            fn co(&self) -> (i128, i128) {
                (self.0 as i128, self.1 as i128)
            }
        }
    )* };
}
place!(u8 u16 u32 u64 u128 i8 i16 i32);
impl<const X: u16, const Y: u16> Place for Pos<X, Y> {
    const RANGE: [i128; 4] = [0, 0, X as i128 + 1, Y as i128 + 1];
    fn of(x: i128, y: i128) -> Self {
        Pos::new(x as u16, y as u16).unwrap()
    }
    fn co(&self) -> (i128, i128) {
        (self.x() as i128, self.y() as i128)
    }
}

type Log = (i128, i128);

/// How the walk ends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Origin,
    NoEntry,
    OffGrid,
    Circle,
}

/// A window in which the walk goes back and forth. All walks lead towards the
/// window's own corner (0, 0), or round and round.
#[derive(Clone, Copy, Debug)]
struct Plan {
    w: i128,
    h: i128,
    x0: i128,
    y0: i128,
    turn: bool,
    mirror: (bool, bool),
    end: End,
}

impl Plan {
    fn inner(&self, x: i128, y: i128) -> Option<Log> {
        let (rw, rh) = if self.turn { (self.h, self.w) } else { (self.w, self.h) };
        let (mut a, mut b) = (x.wrapping_sub(self.x0), y.wrapping_sub(self.y0));
        if a < 0 || b < 0 || a >= rw || b >= rh {
            return None;
        }
        if self.mirror.0 {
            a = rw - 1 - a;
        }
        if self.mirror.1 {
            b = rh - 1 - b;
        }
        Some(if self.turn { (b, a) } else { (a, b) })
    }
    fn outer(&self, l: Log) -> (i128, i128) {
        let (rw, rh) = if self.turn { (self.h, self.w) } else { (self.w, self.h) };
        let (mut a, mut b) = if self.turn { (l.1, l.0) } else { l };
        if self.mirror.0 {
            a = rw - 1 - a;
        }
        if self.mirror.1 {
            b = rh - 1 - b;
        }
        (a + self.x0, b + self.y0)
    }
    /// Where the entry of a cell of the window leads, in window coordinates.
    fn next(&self, (a, b): Log) -> Option<Log> {
        if self.end == End::Circle {
            // Rows, then back along the first column. Rows are even in number.
            return Some(match () {
                _ if a == 0 && b > 0 => (0, b - 1),
                _ if b % 2 == 0 && a < self.w - 1 => (a + 1, b),
                _ if b % 2 == 0 => (a, b + 1),
                _ if a > 1 || b == self.h - 1 => (a - 1, b),
                _ => (a, b + 1),
            });
        }
        Some(match () {
            _ if (a, b) == (0, 0) => {
                return match self.end {
                    End::OffGrid => Some((-1, 0)),
                    _ => None,
                }
            }
            _ if b % 2 == 0 && a > 0 => (a - 1, b),
            _ if b % 2 == 1 && a < self.w - 1 => (a + 1, b),
            _ => (a, b - 1),
        })
    }
    fn dir(&self, l: Log) -> Option<usize> {
        let n = self.next(l)?;
        let ((x, y), (p, q)) = (self.outer(l), self.outer(n));
        STEP.iter().position(|s| *s == ((p - x) as i64, (q - y) as i64))
    }
}

static ENTRY: [Option<Dir>; 9] = [
    Some(Dir::N),
    Some(Dir::NE),
    Some(Dir::E),
    Some(Dir::SE),
    Some(Dir::S),
    Some(Dir::SW),
    Some(Dir::W),
    Some(Dir::NW),
    None,
];

/// A caller-written store without any storage.
struct Computed(Plan, std::cell::Cell<u32>);
impl<P: Place, const WORDS: usize, const SIZE: usize> MapPos<Option<Dir>, P, WORDS, SIZE> for Computed {
    fn new(_: Option<Dir>) -> Self {
        unreachable!()
    }
    fn get(&self, p: &P) -> &Option<Dir> {
        self.1.set(self.1.get().wrapping_add(1));
        if self.1.get() % 512 == 0 {
            yp();
        }
        let (x, y) = p.co();
        &ENTRY[self.0.inner(x, y).and_then(|l| self.0.dir(l)).unwrap_or(8)]
    }
    fn set(&mut self, _: P, _: Option<Dir>) {
        unreachable!()
    }
}

fn vast<P: Place>(name: &str) {
    let [mx, my, cx, cy] = P::RANGE;
    let len = 2 + w(1 << (1 + w(22)));
    let (turn, mirror) = (w(2) == 1, (w(2) == 1, w(2) == 1));
    let end = *pick(&[End::Origin, End::Circle, End::NoEntry, End::OffGrid]);
    let (cw, ch) = if turn { (cy, cx) } else { (cx, cy) };
    let wide = (2 + w(1 << (1 + w(21))) as i128).min(cw);
    let mut tall = (len as i128 / wide + 1).min(ch);
    if end == End::Circle {
        tall = (tall + 1) & !1;
        if tall > ch {
            tall = ch & !1;
        }
    }
    let mut plan = Plan { w: wide, h: tall, x0: 0, y0: 0, turn, mirror, end };
    let (rw, rh) = if turn { (tall, wide) } else { (wide, tall) };
    // Somewhere in the grid, or at one of its edges.
    let put = |least: i128, room: i128, spare: u64| match spare {
        0 => least,
        1 => least + room,
        _ => least + (w(1 << 31) as i128) % (room + 1),
    };
    (plan.x0, plan.y0) = (put(mx, cx - rw, w(3)), put(my, cy - rh, w(3)));
    if end == End::OffGrid {
        // The way out is beyond the first column (after turning and mirroring).
        let room = |m: bool, least: i128, spare: i128| if m { least + spare } else { least };
        if turn {
            plan.y0 = room(mirror.1, my, cy - rh);
        } else {
            plan.x0 = room(mirror.0, mx, cx - rw);
        }
    }
    // The destination somewhere on the way; the walk is followed here by hand.
    let last = if end == End::Circle {
        (w(wide as u64) as i128, w(tall as u64) as i128)
    } else {
        (if wp(1, 2) { w(wide as u64) as i128 } else { wide - 1 }, tall - 1)
    };
    let mut want = vec![];
    // The origin: the end of the walk, a cell on the circle, or elsewhere.
    let stop = match end {
        End::Origin => Some((0, 0)),
        End::Circle if wp(1, 4) => Some((w(wide as u64) as i128, w(tall as u64) as i128)),
        _ => None,
    };
    let orig = match stop {
        Some(l) => plan.outer(l),
        None => {
            let corners = [(mx, my), (mx + cx - 1, my), (mx, my + cy - 1), (mx + cx - 1, my + cy - 1)];
            match corners.iter().find(|c| plan.inner(c.0, c.1).is_none()) {
                Some(c) => *c,
                // The window is everything: the end itself is the origin.
                None => return,
            }
        }
    };
    if let Some(l) = stop {
        let mut c = last;
        while c != l {
            want.push((plan.dir(c).unwrap() + 4) % 8);
            c = plan.next(c).unwrap();
        }
        want.reverse();
    }
    let (o, d) = (P::of(orig.0, orig.1), plan.outer(last));
    let d = P::of(d.0, d.1);
    note(|| format!("rebuild from a computed map over {name}, {wide}x{tall} cells: {plan:?}"));
    let r = call(|| camefrom_into_path::<_, P, 0, 0>(Computed(plan, Default::default()), &o, &d));
    stat("checked");
    stat("walk:computed");
    let r = match r {
        Call::Done(r) => r,
        Call::Injected(k) => fail("wrong-payload", format!("panic #{k} surfaced from a rebuild")),
        Call::Panicked(m) => fail("library-panic", format!("rebuilding panicked: {m} over {name}, {plan:?}")),
    };
    let long = wide * tall;
    if long > 100_000 {
        stat("walk:computed-over-100000");
    }
    if long > 2_000_000 {
        stat("walk:computed-over-2000000");
    }
    let nothing = end == End::NoEntry && last == (0, 0);
    let shown = match &r {
        Ok(p) => format!("a path of {} moves", p.len()),
        Err(e) => format!("{e:?}"),
    };
    ev("vast", long as i64, r.is_ok() as i64);
    match stop {
        Some(_) => {
            let entry = plan.dir(last).is_some();
            let ok = match &r {
                Ok(p) => entry && p.len() == want.len() && p.iter().zip(&want).all(|(a, b)| *a as usize == *b),
                Err(Error::DestinationUnreachable) => !entry,
                Err(_) => false,
            };
            ensure!(ok, if r.is_ok() { "wrong-path" } else { "path-refused" }, "rebuilding over {name} gave {shown}, the walk has {} moves ({plan:?})", want.len());
        }
        None => {
            let ok = match end {
                _ if nothing => matches!(r, Err(Error::DestinationUnreachable)),
                End::Circle => matches!(r, Err(Error::Loop)),
                _ => matches!(r, Err(Error::InvalidMovement)),
            };
            ensure!(ok, if r.is_ok() { "path-from-nothing" } else { "wrong-error" }, "rebuilding over {name} gave {shown}, but the walk of {long} cells ends with {end:?} ({plan:?})");
        }
    }
}

pub fn c08_vast() {
    match w(12) {
        0 => vast::<(u8, u8)>("(u8,u8)"),
        1 => vast::<(u16, u16)>("(u16,u16)"),
        2 => vast::<(u32, u32)>("(u32,u32)"),
        3 => vast::<(u64, u64)>("(u64,u64)"),
        4 => vast::<(u128, u128)>("(u128,u128)"),
        5 => vast::<(i8, i8)>("(i8,i8)"),
        6 => vast::<(i16, i16)>("(i16,i16)"),
        7 => vast::<(i32, i32)>("(i32,i32)"),
        8 => vast::<Pos<65534, 65534>>("Pos<65534,65534>"),
        9 => vast::<Pos<65534, 99>>("Pos<65534,99>"),
        10 => vast::<Pos<1, 65534>>("Pos<1,65534>"),
        _ => vast::<Pos<2999, 1999>>("Pos<2999,1999>"),
    }
}
