//! C13: renderings against an independent one, into failing sinks.

use crate::elems::*;
use crate::objs::*;
use simcore::*;
use sqrid::{Dir, Pos};
use std::fmt;
use std::io;

/// How the sink misbehaves.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    No,
    /// Error at the n-th write; part of that write is still accepted.
    Error(u64, bool),
    /// Panic at the n-th write.
    Panic(u64),
    /// Error once this many bytes are accepted.
    Full(usize),
}

struct Sink {
    got: Vec<u8>,
    bad: Bad,
    calls: u64,
    failed: bool,
    after: u64,
    /// Short and interrupted writes (io only).
    short: bool,
    nest: bool,
}

impl Sink {
    fn new(bad: Bad, short: bool, nest: bool) -> Sink {
        Sink {
            got: vec![],
            bad,
            calls: 0,
            failed: false,
            after: 0,
            short,
            nest,
        }
    }
    /// Ok(n): accept n bytes; Err(n): accept n bytes, then fail.
    fn accept(&mut self, b: &[u8]) -> Result<usize, usize> {
        yp();
        if self.failed {
            self.after += 1;
            return Err(0);
        }
        let n = self.calls;
        self.calls += 1;
        if self.nest && n % 5 == 1 {
            nested();
        }
        match self.bad {
            Bad::Error(k, part) if n >= k => {
                self.failed = true;
                fault_fired("fault:sink-error");
                let keep = if part { f(b.len() as u64 + 1) as usize } else { 0 };
                self.got.extend_from_slice(&b[..keep]);
                Err(keep)
            }
            Bad::Panic(k) if n == k => {
                self.failed = true;
                inject_panic("fault:panic-in-sink");
            }
            Bad::Full(k) if self.got.len() + b.len() > k => {
                self.failed = true;
                fault_fired("fault:sink-full");
                let keep = k.saturating_sub(self.got.len());
                self.got.extend_from_slice(&b[..keep]);
                Err(keep)
            }
            _ => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
        }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.accept(s.as_bytes()).map(|_| ()).map_err(|_| fmt::Error)
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.short && !self.failed {
            match f(6) {
                0 => {
                    fault_fired("fault:interrupted-write");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                1 | 2 if b.len() > 1 => {
                    fault_fired("fault:short-write");
                    let n = 1 + f(b.len() as u64 - 1) as usize;
                    return match self.accept(&b[..n]) {
                        Ok(n) => Ok(n),
                        Err(_) => Err(io::ErrorKind::BrokenPipe.into()),
                    };
                }
                _ => {}
            }
        }
        match self.accept(b) {
            Ok(n) => Ok(n),
            Err(_) => Err(io::ErrorKind::StorageFull.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Another, undisturbed rendering from within the sink.
fn nested() {
    stat("nested-rendering");
    if wp(1, 3) {
        // Deeper still.
        arm_inside(1 + w(6), FMT, nested);
    }
    let s = NUMS[w(6) as usize];
    let n = s.w() * s.h();
    let mut it = (0..n).map(|c| Num(c as i64));
    let g = s.collect(Lazy(&mut it, false));
    let v: Vec<String> = (0..n).map(|c| text(c as i64)).collect();
    let want = reference(s.w(), s.h(), &v, 3, 2);
    let mut out = String::new();
    let r = g.render(3, 2, &mut out);
    ensure!(r.is_ok() && out == want, "wrong-rendering", "nested rendering of {} is {out:?} instead of {want:?}", s.name());
}

/// One cell padded as its specification says.
fn padded(s: &str, spec: usize, width: usize, out: &mut String) {
    let (fill, align) = PADDING[spec];
    let n = s.chars().count();
    let lack = if spec == 0 { 0 } else { width.saturating_sub(n) };
    let left = match align {
        '>' => lack,
        '^' => lack / 2,
        _ => 0,
    };
    for _ in 0..left {
        out.push(fill);
    }
    out.push_str(s);
    for _ in left..lack {
        out.push(fill);
    }
}
fn digits(mut n: u32) -> Vec<u8> {
    let mut d = vec![];
    loop {
        d.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return d;
        }
    }
}
/// The full rendering, written from the documentation.
fn reference(wd: u32, ht: u32, cells: &[String], spec: usize, width: usize) -> String {
    let mut o = String::new();
    let (dx, dy) = (digits(wd - 1).len(), digits(ht - 1).len());
    let labels = |o: &mut String| {
        for k in 0..dx {
            for _ in 0..=dy {
                o.push(' ');
            }
            for x in 0..wd {
                let d = digits(x);
                let c = if k + d.len() < dx { ' ' } else { d[k + d.len() - dx] as char };
                padded(&c.to_string(), spec, width, o);
            }
            o.push('\n');
        }
    };
    labels(&mut o);
    for y in 0..ht {
        let d = digits(y);
        for _ in d.len()..dy {
            o.push(' ');
        }
        o.push_str(std::str::from_utf8(&d).unwrap());
        o.push(' ');
        for x in 0..wd {
            padded(&cells[(y * wd + x) as usize], spec, width, &mut o);
        }
        o.push('\n');
    }
    labels(&mut o);
    o
}

/// The library's renderings by both kinds of sink.
trait Show {
    fn fmt(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result;
    fn io(&self, spec: usize, width: usize, out: &mut dyn io::Write) -> io::Result<()>;
}
struct ShowGrid<'a, T>(&'a dyn GridObj<T>);
impl<T> Show for ShowGrid<'_, T> {
    fn fmt(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
        self.0.render(spec, width, out)
    }
    fn io(&self, spec: usize, width: usize, out: &mut dyn io::Write) -> io::Result<()> {
        self.0.render_io(spec, width, out)
    }
}
struct ShowBool<'a>(&'a dyn BoolObj);
impl Show for ShowBool<'_> {
    fn fmt(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
        self.0.render(spec, width, out)
    }
    fn io(&self, spec: usize, width: usize, out: &mut dyn io::Write) -> io::Result<()> {
        self.0.render_io(spec, width, out)
    }
}
struct ShowAny<D>(D);
impl<D: fmt::Display> Show for ShowAny<D> {
    fn fmt(&self, spec: usize, width: usize, out: &mut dyn fmt::Write) -> fmt::Result {
        put_any(&self.0, spec, width, out)
    }
    fn io(&self, spec: usize, width: usize, out: &mut dyn io::Write) -> io::Result<()> {
        put_any_io(&self.0, spec, width, out)
    }
}

/// Render once into a drawn sink and judge.
fn trial(name: &str, s: &dyn Show, want: &str, spec: usize, width: usize, elems: u64) {
    let writes = elems + 8;
    let bad = match f(8) {
        0..=2 => Bad::No,
        3 => Bad::Error(f(writes * 2), false),
        4 => Bad::Error(f(writes), true),
        5 => Bad::Panic(f(writes)),
        6 => Bad::Full(f(want.len() as u64 + 2) as usize),
        // The very end.
        _ => Bad::Full(want.len().saturating_sub(1 + f(3) as usize)),
    };
    let via_io = wp(1, 3);
    let mut sink = Sink::new(bad, via_io && fp(1, 2), wp(1, 12));
    if elems > 0 && fp(1, 5) {
        arm(1 + f(elems), FMT);
    }
    if elems > 0 && wp(1, 8) {
        // An element whose own formatting renders another grid.
        arm_inside(1 + w(elems), FMT, nested);
    }
    let what = || format!("rendering {name} with {:?} w={width} into a sink with {bad:?}{}", SPEC[spec], if via_io { " (io)" } else { "" });
    note(&what);
    let r = call(|| if via_io { s.io(spec, width, &mut sink).is_ok() } else { s.fmt(spec, width, &mut sink).is_ok() });
    disarm();
    let got = &sink.got;
    ev("render", got.len() as i64, sink.failed as i64);
    let whole = got == want.as_bytes();
    let prefix = want.as_bytes().starts_with(got);
    let text = String::from_utf8_lossy(got);
    ensure!(prefix, "wrong-rendering", "{} wrote {text:?}, no prefix of {want:?}", what());
    ensure!(sink.after == 0, "write-after-failure", "{}: {} writes after the failure", what(), sink.after);
    match r {
        Call::Done(ok) => {
            ensure!(ok != sink.failed, "wrong-result", "{} returned {} although the sink {}", what(), if ok { "Ok" } else { "Err" }, if sink.failed { "failed" } else { "did not fail" });
            if ok {
                ensure!(whole, "wrong-rendering", "{} wrote only {text:?} of {want:?}", what());
                stat("rendered-whole");
            } else {
                stat("error-reported");
            }
        }
        Call::Injected(k) => {
            ensure!(k == last_fault(), "wrong-payload", "panic #{k} surfaced, #{} was raised: {}", last_fault(), what());
            stat("cut-short");
        }
        Call::Panicked(m) => fail("library-panic", format!("{} panicked: {m}", what())),
    }
    stat("checked");
}

fn pick_width(n: u32) -> usize {
    (if n <= 30 && wp(1, 24) { w(300) } else { w(9) }) as usize
}

fn grid_trial<T: Elem>(s: &'static dyn Shape<T>) {
    let n = s.w() * s.h();
    let wide = wp(1, 3);
    let v: Vec<i64> = (0..n)
        .map(|_| if wide { w(2_000_000) as i64 - 1_000_000 } else { w(30) as i64 - 8 })
        .collect();
    let mut it = v.iter().map(|x| T::make(*x));
    let g = s.collect(Lazy(&mut it, false));
    let cells: Vec<String> = v.iter().map(|x| text(*x)).collect();
    for _ in 0..1 + w(3) {
        let (spec, width) = (w(SPECS as u64) as usize, pick_width(n));
        let want = reference(s.w(), s.h(), &cells, spec, width);
        trial(&format!("grid {}", s.name()), &ShowGrid(&*g), &want, spec, width, n as u64);
        yp();
    }
}

fn bool_trial(s: &'static dyn BoolShape) {
    let n = s.w() * s.h();
    let v: Vec<bool> = (0..n).map(|_| wp(1, 2)).collect();
    let mut it = v.iter().copied();
    let g = s.collect_bools(Lazy(&mut it, false));
    let cells: Vec<String> = v.iter().map(|x| (if *x { "#" } else { "." }).to_string()).collect();
    for _ in 0..1 + w(3) {
        let (spec, width) = (w(SPECS as u64) as usize, pick_width(n));
        let want = reference(s.w(), s.h(), &cells, spec, width);
        trial(&format!("boolean grid {}", s.name()), &ShowBool(&*g), &want, spec, width, n as u64);
        yp();
    }
}

fn small_trial() {
    const DIRS: [&str; 8] = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"];
    if wp(1, 2) {
        let k = w(8) as usize;
        trial("a direction", &ShowAny(Dir::ALL8[k]), DIRS[k], 0, 0, 0);
        return;
    }
    macro_rules! one {
        ($x:literal, $y:literal) => {{
            let (x, y) = (w($x as u64 + 1), w($y as u64 + 1));
            let want = format!("({x},{y})");
            if let Ok(p) = Pos::<$x, $y>::new(x as u16, y as u16) {
                trial("a position", &ShowAny(p), &want, 0, 0, 0);
            }
        }};
    }
    match w(4) {
        0 => one!(2, 2),
        1 => one!(0, 9),
        2 => one!(1000, 20),
        _ => one!(65535, 65535),
    }
}

fn client(trials: u64) {
    for _ in 0..trials {
        match w(10) {
            0..=3 => grid_trial(NUMS[if wp(1, 5) { w(NUMS.len() as u64) } else { w(13) } as usize]),
            4 | 5 => grid_trial(TOKS[w(11) as usize]),
            6 | 7 => bool_trial(*pick(BOOLS)),
            8 if wp(1, 30) => grid_trial(if w(60) == 59 { *pick(FARTHEST) } else { *pick(WIDE) }),
            _ => small_trial(),
        }
        yp();
    }
}

pub fn c13() {
    ledger_reset();
    set_gap_scale(1 << w(8));
    let n = 1 + w(3);
    let tasks = (0..n)
        .map(|_| {
            let hs = w(1 << 32);
            let k = 1 + w(4);
            (hs, Box::new(move || client(k)) as Task)
        })
        .collect();
    run_tasks(tasks, 16 << 20);
}
