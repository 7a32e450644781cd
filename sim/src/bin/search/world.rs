//! Ground truth: which moves a simulated world allows and what they cost,
//! with reference searches written independently of the library.

use simcore::cells::STEP;
use simcore::*;
use std::collections::BinaryHeap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Costs {
    One,
    Small(u64),
    WithZero(u64),
    Dear(u64),
    ByDir(u64),
}

#[derive(Clone, Debug)]
pub struct World {
    pub w: u32,
    pub h: u32,
    pub d: bool,
    /// Allowed directions per cell.
    pub allow: Vec<u8>,
    /// Directions answered with the cell itself.
    pub stay: Vec<u8>,
    pub costs: Costs,
    pub style: u64,
    /// A cell worth starting from, if the style has one.
    pub focus: Option<u32>,
}

pub const HUGE: [usize; 5] = [1 << 31, 1 << 33, 1 << 48, usize::MAX / 2, usize::MAX];

impl World {
    pub fn n(&self) -> u32 {
        self.w * self.h
    }
    /// A cell to start from.
    pub fn origin(&self) -> u32 {
        match self.focus {
            Some(c) if w(3) > 0 => c,
            _ => w(self.n() as u64) as u32,
        }
    }
    pub fn nb(&self, c: u32, dir: usize) -> Option<u32> {
        nb(self.w, self.h, c, dir)
    }
    pub fn dirs(&self) -> impl Iterator<Item = usize> {
        (0..8usize).step_by(if self.d { 1 } else { 2 })
    }
    /// The caller's movement function.
    pub fn go(&self, c: u32, dir: usize) -> Option<u32> {
        let bit = 1u8 << dir;
        if self.stay[c as usize] & bit != 0 {
            return Some(c);
        }
        if self.allow[c as usize] & bit != 0 {
            self.nb(c, dir)
        } else {
            None
        }
    }
    /// A real move from c in direction dir.
    pub fn mv(&self, c: u32, dir: usize) -> Option<u32> {
        let bit = 1u8 << dir;
        if self.stay[c as usize] & bit != 0 || self.allow[c as usize] & bit == 0 {
            None
        } else {
            self.nb(c, dir)
        }
    }
    pub fn cost(&self, c: u32, dir: usize) -> usize {
        let r = |s: u64| mix(s ^ ((c as u64) << 8) ^ dir as u64);
        match self.costs {
            Costs::One => 1,
            Costs::Small(s) => (r(s) % 9 + 1) as usize,
            Costs::WithZero(s) => (r(s) % 4) as usize,
            Costs::ByDir(s) => (mix(s ^ dir as u64) % 5) as usize,
            Costs::Dear(s) => {
                let v = r(s);
                if v % 4 == 0 {
                    HUGE[((v >> 8) % 5) as usize]
                } else {
                    ((v >> 8) % 7) as usize
                }
            }
        }
    }

    /// Fewest moves from `o` to every cell (u32::MAX: unreachable).
    pub fn dist(&self, o: u32) -> Vec<u32> {
        let mut d = vec![u32::MAX; self.n() as usize];
        d[o as usize] = 0;
        let mut q = vec![o];
        let mut i = 0;
        while i < q.len() {
            let c = q[i];
            i += 1;
            for dir in self.dirs() {
                if let Some(k) = self.mv(c, dir) {
                    if d[k as usize] == u32::MAX {
                        d[k as usize] = d[c as usize] + 1;
                        q.push(k);
                    }
                }
            }
        }
        d
    }

    /// Least total cost from `o` to every cell.
    pub fn cheapest(&self, o: u32) -> Vec<Option<u128>> {
        let mut d: Vec<Option<u128>> = vec![None; self.n() as usize];
        let mut q = BinaryHeap::new();
        q.push((std::cmp::Reverse(0u128), o));
        while let Some((std::cmp::Reverse(c), p)) = q.pop() {
            if d[p as usize].is_some() {
                continue;
            }
            d[p as usize] = Some(c);
            for dir in self.dirs() {
                if let Some(k) = self.mv(p, dir) {
                    if d[k as usize].is_none() {
                        q.push((std::cmp::Reverse(c + self.cost(p, dir) as u128), k));
                    }
                }
            }
        }
        d
    }

    pub fn show(&self) -> String {
        if self.n() > 200 {
            return format!("{}x{} style {} (too large to print)", self.w, self.h, self.style);
        }
        let mut s = format!("{}x{} d={} style={} costs={:?} allowed-direction masks (hex, N=01 NE=02 E=04 SE=08 S=10 SW=20 W=40 NW=80):", self.w, self.h, self.d, self.style, self.costs);
        for y in 0..self.h {
            s.push_str(" |");
            for x in 0..self.w {
                let c = (y * self.w + x) as usize;
                s.push_str(&format!(" {:02x}", self.allow[c]));
                if self.stay[c] != 0 {
                    s.push_str(&format!("/stay{:02x}", self.stay[c]));
                }
            }
        }
        s
    }
}

pub fn nb(w: u32, h: u32, c: u32, dir: usize) -> Option<u32> {
    let (x, y) = ((c % w) as i64, (c / w) as i64);
    let (dx, dy) = STEP[dir];
    let (nx, ny) = (x + dx, y + dy);
    if nx < 0 || ny < 0 || nx >= w as i64 || ny >= h as i64 {
        None
    } else {
        Some((ny * w as i64 + nx) as u32)
    }
}

fn wall(allow: &mut [u8], w: u32, h: u32, c: u32) {
    allow[c as usize] = 0;
    for dir in 0..8 {
        if let Some(k) = nb(w, h, c, dir) {
            allow[k as usize] &= !(1 << ((dir + 4) % 8));
        }
    }
}

/// Draw a world. Small worlds are drawn choice by choice (so that a failing
/// one shrinks); large ones from one drawn seed.
pub fn gen_world(ww: u32, hh: u32, d: bool) -> World {
    let n = (ww * hh) as usize;
    let mut allow = vec![0u8; n];
    for c in 0..n as u32 {
        for dir in 0..8 {
            if (d || dir % 2 == 0) && nb(ww, hh, c, dir).is_some() {
                allow[c as usize] |= 1 << dir;
            }
        }
    }
    let mut stay = vec![0u8; n];
    let small = n <= 72;
    let style = w(11);
    let mut focus = None;
    let seed = if small { 0 } else { w(1 << 30) };
    let mut rng = Rng::new(seed);
    let mut draw = |k: u64| -> u64 {
        if small {
            w(k)
        } else {
            rng.below(k)
        }
    };
    match style {
        0 => {}
        1 | 2 => {
            // Walls at random; denser in style 2.
            let dens = 1 + draw(if style == 1 { 3 } else { 5 });
            for c in 0..n as u32 {
                if draw(10) >= 10 - dens {
                    wall(&mut allow, ww, hh, c);
                }
            }
        }
        3 => {
            // One-way and missing edges.
            let dens = 1 + draw(6);
            for a in allow.iter_mut() {
                for dir in 0..8 {
                    if *a & (1 << dir) != 0 && draw(8) >= 8 - dens {
                        *a &= !(1 << dir);
                    }
                }
            }
        }
        4 | 5 => {
            // Serpentine corridor, by rows or by columns, possibly one-way.
            let by_col = style == 5;
            let oneway = draw(2) == 1;
            allow.iter_mut().for_each(|a| *a = 0);
            let (l, m) = if by_col { (hh, ww) } else { (ww, hh) };
            let cell = |i: u32| -> u32 {
                let (row, k) = (i / l, i % l);
                let k = if row % 2 == 0 { k } else { l - 1 - k };
                if by_col {
                    k * ww + row
                } else {
                    row * ww + k
                }
            };
            for i in 0..(l * m).saturating_sub(1) {
                let (a, b) = (cell(i), cell(i + 1));
                for dir in [0, 2, 4, 6] {
                    if nb(ww, hh, a, dir) == Some(b) {
                        allow[a as usize] |= 1 << dir;
                        if !oneway {
                            allow[b as usize] |= 1 << ((dir + 4) % 8);
                        }
                    }
                }
            }
            // Occasional shortcuts.
            for _ in 0..draw(4) {
                let c = draw(n as u64) as u32;
                let dir = draw(8) as usize;
                if (d || dir % 2 == 0) && nb(ww, hh, c, dir).is_some() {
                    allow[c as usize] |= 1 << dir;
                }
            }
        }
        6 => {
            // Maze: random spanning tree, then a few extra one-way doors.
            let full = allow.clone();
            allow.iter_mut().for_each(|a| *a = 0);
            let mut seen = vec![false; n];
            let mut st = vec![draw(n as u64) as u32];
            seen[st[0] as usize] = true;
            while let Some(&c) = st.last() {
                let opts: Vec<usize> = (0..8)
                    .filter(|dir| full[c as usize] & (1 << dir) != 0 && !seen[nb(ww, hh, c, *dir).unwrap() as usize])
                    .collect();
                if opts.is_empty() {
                    st.pop();
                    continue;
                }
                let dir = opts[draw(opts.len() as u64) as usize];
                let k = nb(ww, hh, c, dir).unwrap();
                allow[c as usize] |= 1 << dir;
                allow[k as usize] |= 1 << ((dir + 4) % 8);
                seen[k as usize] = true;
                st.push(k);
            }
            for _ in 0..draw(n as u64 / 4 + 2) {
                let c = draw(n as u64) as usize;
                let dir = draw(8);
                allow[c] |= full[c] & (1 << dir);
            }
        }
        7 => {
            // Bars: full walls across with zero or one gap each.
            let vert = draw(2) == 1;
            let (l, m) = if vert { (hh, ww) } else { (ww, hh) };
            let mut i = 1;
            while i < m {
                let gap = draw(l as u64 + 1);
                for k in 0..l {
                    if k as u64 != gap {
                        let c = if vert { k * ww + i } else { i * ww + k };
                        wall(&mut allow, ww, hh, c);
                    }
                }
                i += 2 + draw(3) as u32;
            }
        }
        8 => {
            // Pockets: U-shaped obstacles.
            for _ in 0..1 + draw(3) {
                let (x0, y0) = (draw(ww as u64) as u32, draw(hh as u64) as u32);
                let (x1, y1) = ((x0 + 2 + draw(4) as u32).min(ww - 1), (y0 + 2 + draw(4) as u32).min(hh - 1));
                let open = draw(4);
                for y in y0..=y1 {
                    for x in x0..=x1 {
                        let edge = [y == y0, x == x1, y == y1, x == x0];
                        if (0..4).any(|k| edge[k] && k as u64 != open) {
                            wall(&mut allow, ww, hh, y * ww + x);
                        }
                    }
                }
            }
        }
        10 => {
            // Dams: rings around a cell that can be left in few places only.
            let c0 = draw(n as u64) as u32;
            focus = Some(c0);
            let mut dist = vec![u32::MAX; n];
            dist[c0 as usize] = 0;
            let mut q = vec![c0];
            let mut i = 0;
            while i < q.len() {
                let c = q[i];
                i += 1;
                for dir in 0..8 {
                    if allow[c as usize] & (1 << dir) != 0 {
                        let k = nb(ww, hh, c, dir).unwrap();
                        if dist[k as usize] == u32::MAX {
                            dist[k as usize] = dist[c as usize] + 1;
                            q.push(k);
                        }
                    }
                }
            }
            let far = dist[*q.last().unwrap() as usize] as u64;
            for _ in 0..1 + draw(3) {
                let r = draw(far + 1) as u32;
                let mut across = vec![];
                for &c in q.iter().filter(|c| dist[**c as usize] == r) {
                    for dir in 0..8 {
                        if allow[c as usize] & (1 << dir) != 0 && dist[nb(ww, hh, c, dir).unwrap() as usize] == r + 1 {
                            across.push((c, dir));
                        }
                    }
                }
                for _ in 0..1 + draw(2) {
                    if !across.is_empty() {
                        across.swap_remove(draw(across.len() as u64) as usize);
                    }
                }
                for (c, dir) in across {
                    allow[c as usize] &= !(1 << dir);
                }
            }
        }
        _ => {
            // Sparse graph: few edges survive, in single directions.
            for a in allow.iter_mut() {
                let keep = draw(256) as u8 & draw(256) as u8;
                *a &= keep | (1 << (draw(8)));
            }
        }
    }
    if draw(5) == 4 {
        // Some moves are answered with the cell itself.
        for _ in 0..1 + draw(n as u64 / 3 + 1) {
            let c = draw(n as u64) as usize;
            let dir = draw(8);
            if d || dir % 2 == 0 {
                stay[c] |= 1 << dir;
            }
        }
    }
    let costs = match draw(6) {
        0 => Costs::One,
        1 | 2 => Costs::Small(draw(1 << 16)),
        3 => Costs::WithZero(draw(1 << 16)),
        4 => Costs::ByDir(draw(1 << 16)),
        _ => Costs::Dear(draw(1 << 16)),
    };
    World {
        w: ww,
        h: hh,
        d,
        allow,
        stay,
        costs,
        style,
        focus,
    }
}
