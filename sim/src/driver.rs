//! Batch driver: seeded sharded search, crash containment, minimisation,
//! replay files, evidence.

use crate::{install_hook, mix, run_one, RunOut, Scenario, Tapes, Violation, DUMP_ON};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scenario: Scenario,
    /// Runs in the quick tier and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub stack: usize,
    /// What a case is and what makes it non-trivial.
    pub rule: &'static str,
    /// Components that ran real code and components that ran a stub.
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn syscall(nr: i64, ...) -> i64;
}

/// Every run starts threads of its own, tens of thousands a second. The kernel
/// frees what a finished one leaves behind later, and would fall behind by
/// gigabytes if it was never given the time.
fn let_kernel_catch_up() {
    const MEMBARRIER: i64 = if cfg!(target_arch = "x86_64") { 324 } else { 283 };
    // Waits until everything finished before now can be freed.
    unsafe { syscall(MEMBARRIER, 1, 0, 0) };
    for _ in 0..200 {
        let Ok(t) = fs::read_to_string("/proc/meminfo") else { return };
        let kb = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|l| l.trim_end_matches("kB").trim().parse::<u64>().ok());
        match (kb("MemTotal:"), kb("MemAvailable:")) {
            (Some(all), Some(free)) if free < all / 2 => std::thread::sleep(Duration::from_millis(10)),
            _ => return,
        }
    }
}

/// Keeps this process on the k-th of its processors: only one of a run's
/// threads ever runs, and handing over to another is cheaper on the same one.
/// Decides nothing but speed, so failing to is fine.
fn stay_on_cpu(k: usize) {
    let mut mask = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, std::mem::size_of_val(&mask), mask.as_mut_ptr()) < 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut one = [0u64; 16];
        one[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, std::mem::size_of_val(&one), one.as_ptr());
    }
}

const STALL: Duration = Duration::from_secs(40);

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()))
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "release"
    } else {
        "shipped"
    }
}

fn bin_name() -> String {
    std::env::current_exe()
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
        .unwrap_or_default()
}

fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0xD57);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}
fn argn(args: &[String], name: &str, def: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(def)
}

pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: BIN check|worker|replay|try|selftest|show ...";
    let Some(cmd) = args.get(1) else {
        eprintln!("{usage}");
        exit(64)
    };
    if cmd == "replay" {
        exit(replay_cmd(props, args.get(2).expect(usage)));
    }
    let id = args.get(2).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        exit(64)
    };
    match cmd.as_str() {
        "check" => exit(check_cmd(prop, &args)),
        "worker" => exit(worker_cmd(prop, &args)),
        "try" => exit(try_cmd(prop, &args)),
        "hashes" => {
            // Deterministic digest of a range of runs, for the self-test.
            let seed = argn(&args, "--seed", 1);
            let (a, b, k) = (argn(&args, "--start", 0), argn(&args, "--end", 100), argn(&args, "--stride", 1));
            let mut i = a;
            while i < b {
                let o = run_one(prop.scenario, Some(run_seed(seed, prop.id, i)), Tapes::default(), false, prop.stack);
                println!("{i} {:016x} {:016x} {} {} {:?} {:?}", o.hash, o.ilv, o.ticks, o.switches, o.violation.map(|v| v.class), o.harness_error);
                i += k;
            }
            exit(0)
        }
        "show" => {
            let o = run_one(
                prop.scenario,
                Some(run_seed(argn(&args, "--seed", 1), prop.id, argn(&args, "--idx", 0))),
                Tapes::default(),
                true,
                prop.stack,
            );
            for l in &o.log {
                println!("{l}");
            }
            println!("{:?} {:?} {:?} ticks={} switches={}", o.violation, o.harness_error, o.stats, o.ticks, o.switches);
            exit(0)
        }
        _ => {
            eprintln!("{usage}");
            exit(64)
        }
    }
}

/* ----------------------------------------------------------------- worker */

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn tape_str(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

#[derive(Clone)]
struct Known {
    class: String,
    contains: String,
    line: String,
}

fn load_known(id: &str) -> Vec<Known> {
    let txt = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let mut parts = rest.split(" | ");
        let (Some(p), Some(c), Some(k), Some(d)) = (parts.next(), parts.next(), parts.next(), parts.next()) else {
            continue;
        };
        if p == format!("property={id}") {
            v.push(Known {
                class: c.trim_start_matches("class=").to_string(),
                contains: k.trim_start_matches("contains=").to_string(),
                line: d.to_string(),
            });
        }
    }
    v
}

fn known_of<'a>(known: &'a [Known], v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| k.class == v.class && v.msg.contains(&k.contains))
}

fn limits() {
    // Runaway allocations must end the worker, not the sandbox.
    let lim = [3u64 << 30, 3u64 << 30];
    unsafe {
        setrlimit(9, &lim);
        setrlimit(4, &[0, 0]); // no core files
    }
}

fn worker_cmd(p: &Prop, args: &[String]) -> i32 {
    limits();
    let seed = argn(args, "--seed", 1);
    let start = argn(args, "--start", 0);
    if let Some(k) = arg(args, "--cpu").and_then(|k| k.parse().ok()) {
        stay_on_cpu(k);
    }
    let stride = argn(args, "--stride", 1);
    let end = argn(args, "--end", 1);
    let max = Duration::from_secs(argn(args, "--max-secs", 100));
    let prog = arg(args, "--progress").map(|f| fs::OpenOptions::new().write(true).create(true).truncate(false).open(f).unwrap());
    let known = load_known(p.id);
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut nontriv: HashSet<u64> = HashSet::new();
    let mut ilv: HashSet<u64> = HashSet::new();
    let (mut ticks, mut switches, mut faults) = (0u64, 0u64, 0u64);
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut runs_with: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<u64> = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut capped = 0;
    let mut idx = start;
    while idx < end {
        if t0.elapsed() > max {
            capped = 1;
            break;
        }
        if let Some(f) = &prog {
            let _ = f.write_at(&idx.to_le_bytes(), 0);
        }
        if runs % 1000 == 999 {
            let_kernel_catch_up();
        }
        let o = run_one(p.scenario, Some(run_seed(seed, p.id, idx)), Tapes::default(), false, p.stack);
        runs += 1;
        ticks += o.ticks;
        switches += o.switches;
        faults += o.faults;
        for (k, v) in &o.stats {
            *stats.entry(k).or_insert(0) += v;
            *runs_with.entry(k).or_insert(0) += 1;
        }
        if let Some(e) = o.harness_error {
            println!("HERR {idx} {}", esc(&e));
            return 5;
        }
        if let Some(v) = o.violation {
            if let Some(k) = known_of(&known, &v) {
                *knowns.entry(k.line.clone()).or_insert(0) += 1;
                idx += stride;
                continue;
            }
            println!("VIOL {idx} {} {}", v.class, esc(&v.msg));
            println!("TW {}", tape_str(&o.tapes.w));
            println!("TS {}", tape_str(&o.tapes.s));
            println!("TF {}", tape_str(&o.tapes.f));
            println!("ENDVIOL");
            return 1;
        }
        let nt = o.stats.get("checked").copied().unwrap_or(0) > 0 && (o.faults > 0 || o.switches > 0);
        if nt {
            nontriv.insert(o.hash);
            if samples.len() < 2 && o.ticks < 400 {
                samples.push(idx);
            }
        }
        if o.switches > 0 {
            ilv.insert(o.ilv);
        }
        idx += stride;
    }
    println!("RUNS {runs}");
    println!("TICKS {ticks}");
    println!("SWITCHES {switches}");
    println!("FAULTS {faults}");
    println!("CAPPED {capped}");
    for s in &samples {
        println!("SAMPLE {s}");
    }
    for (k, v) in &stats {
        println!("STAT {} {} {}", k, v, runs_with[k]);
    }
    for (k, v) in &knowns {
        println!("KNOWN {v} {k}");
    }
    if let Some(f) = arg(args, "--hashes") {
        let mut buf = Vec::with_capacity(16 + 8 * (nontriv.len() + ilv.len()));
        buf.extend_from_slice(&(nontriv.len() as u64).to_le_bytes());
        for h in &nontriv {
            buf.extend_from_slice(&h.to_le_bytes());
        }
        for h in &ilv {
            buf.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(f, buf).unwrap();
    }
    println!("END");
    0
}

/* ------------------------------------------------------------------ replay */

#[derive(Clone, Debug, Default)]
struct Replay {
    property: String,
    bin: String,
    profile: String,
    class: String,
    msg: String,
    /// Seeded replay of a sequence of runs (when one run alone does not fail).
    seq: Option<(u64, Vec<u64>)>,
    tapes: Tapes,
    hash: u64,
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn write_replay(path: &Path, r: &Replay, log: &[String]) {
    let mut s = String::new();
    let _ = writeln!(s, "dst-replay 1");
    let _ = writeln!(s, "property {}", r.property);
    let _ = writeln!(s, "bin {}", r.bin);
    let _ = writeln!(s, "profile {}", r.profile);
    let _ = writeln!(s, "class {}", r.class);
    let _ = writeln!(s, "msg {}", esc(&r.msg));
    let _ = writeln!(s, "hash {:016x}", r.hash);
    if let Some((seed, idxs)) = &r.seq {
        let _ = writeln!(s, "seq {} {}", seed, tape_str(idxs));
    }
    let _ = writeln!(s, "workload {}", tape_str(&r.tapes.w));
    let _ = writeln!(s, "schedule {}", tape_str(&r.tapes.s));
    let _ = writeln!(s, "faults {}", tape_str(&r.tapes.f));
    let _ = writeln!(s, "trace");
    for l in log {
        let _ = writeln!(s, "  {l}");
    }
    fs::write(path, s).unwrap();
}

fn read_replay(path: &Path) -> Replay {
    let txt = fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", path.display());
        exit(64)
    });
    let mut r = Replay::default();
    for l in txt.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.property = v.into(),
            "bin" => r.bin = v.into(),
            "profile" => r.profile = v.into(),
            "class" => r.class = v.into(),
            "msg" => r.msg = unesc(v),
            "hash" => r.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "seq" => {
                let n = parse_tape(v);
                r.seq = Some((n[0], n[1..].to_vec()));
            }
            "workload" => r.tapes.w = parse_tape(v),
            "schedule" => r.tapes.s = parse_tape(v),
            "faults" => r.tapes.f = parse_tape(v),
            "trace" => break,
            _ => {}
        }
    }
    r
}

/// Executed in a child: run the file's run(s) and describe the outcome.
fn try_cmd(p: &Prop, args: &[String]) -> i32 {
    limits();
    let verbose = args.iter().any(|a| a == "--verbose");
    let out = if let Some(file) = arg(args, "--file") {
        let r = read_replay(Path::new(&file));
        if let Some((seed, idxs)) = &r.seq {
            let mut o = RunOut::default();
            for i in idxs {
                o = run_one(p.scenario, Some(run_seed(*seed, p.id, *i)), Tapes::default(), verbose, p.stack);
                if o.violation.is_some() || o.harness_error.is_some() {
                    break;
                }
            }
            o
        } else {
            run_one(p.scenario, None, r.tapes, verbose, p.stack)
        }
    } else {
        let seed = argn(args, "--seed", 1);
        let idx = argn(args, "--idx", 0);
        if let Some(d) = arg(args, "--dump") {
            crate::set_dump(Some(fs::File::create(d).unwrap()));
            DUMP_ON.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        run_one(p.scenario, Some(run_seed(seed, p.id, idx)), Tapes::default(), verbose, p.stack)
    };
    if verbose {
        for l in &out.log {
            println!("LOG {}", esc(l));
        }
    }
    println!("HASH {:016x}", out.hash);
    if let Some(e) = out.harness_error {
        println!("HERR {}", esc(&e));
        return 5;
    }
    if let Some(v) = out.violation {
        println!("VIOL 0 {} {}", v.class, esc(&v.msg));
        println!("TW {}", tape_str(&out.tapes.w));
        println!("TS {}", tape_str(&out.tapes.s));
        println!("TF {}", tape_str(&out.tapes.f));
    }
    println!("END");
    0
}

struct TryOut {
    class: Option<String>,
    msg: String,
    tapes: Tapes,
    hash: u64,
    log: Vec<String>,
}

fn run_child(args: &[String], timeout: Duration) -> TryOut {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        let _ = tx.send(b);
    });
    let mut r = TryOut {
        class: None,
        msg: String::new(),
        tapes: Tapes::default(),
        hash: 0,
        log: vec![],
    };
    let buf = match rx.recv_timeout(timeout) {
        Ok(b) => b,
        Err(_) => {
            let _ = ch.kill();
            let _ = ch.wait();
            r.class = Some("stall".into());
            r.msg = format!("no progress for {} s of real time inside one call", timeout.as_secs());
            return r;
        }
    };
    let st = ch.wait().unwrap();
    for l in String::from_utf8_lossy(&buf).lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "HASH" => r.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "LOG" => r.log.push(unesc(v)),
            "HERR" => {
                r.class = Some("HARNESS".into());
                r.msg = unesc(v);
            }
            "VIOL" => {
                let mut it = v.splitn(3, ' ');
                it.next();
                r.class = it.next().map(|s| s.to_string());
                r.msg = unesc(it.next().unwrap_or(""));
            }
            "TW" => r.tapes.w = parse_tape(v),
            "TS" => r.tapes.s = parse_tape(v),
            "TF" => r.tapes.f = parse_tape(v),
            _ => {}
        }
    }
    if let Some(sig) = st.signal() {
        r.class = Some(format!("crash-signal-{sig}"));
        r.msg = format!("the process was killed by signal {sig} inside a call into the library");
    } else if st.code() != Some(0) && st.code() != Some(5) {
        r.class = Some(format!("crash-exit-{}", st.code().unwrap_or(-1)));
        r.msg = "the process ended inside a call into the library".into();
    }
    r
}

fn try_file(prop: &str, tmp: &Path, r: &Replay, verbose: bool, timeout: Duration) -> TryOut {
    let f = tmp.join("cand.replay");
    write_replay(&f, r, &[]);
    let mut a: Vec<String> = vec!["try".into(), prop.into(), "--file".into(), f.display().to_string()];
    if verbose {
        a.push("--verbose".into());
    }
    run_child(&a, timeout)
}

fn minimise(prop: &Prop, tmp: &Path, start: Replay, budget: Duration) -> Replay {
    let t0 = Instant::now();
    let timeout = if start.class == "stall" {
        return start;
    } else {
        Duration::from_secs(20)
    };
    let mut best = start;
    let mut tries = 0u32;
    let weight = |r: &Replay| {
        (
            r.tapes.w.len() + r.tapes.s.len() + r.tapes.f.len(),
            r.tapes.w.iter().chain(&r.tapes.s).chain(&r.tapes.f).map(|x| *x as u128).sum::<u128>(),
        )
    };
    let mut attempt = |best: &mut Replay, cand: Tapes| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        let mut c = best.clone();
        c.tapes = cand;
        if weight(&c) >= weight(best) {
            return false;
        }
        tries += 1;
        let o = try_file(prop.id, tmp, &c, false, timeout);
        if o.class.as_deref() == Some(&best.class) {
            c.msg = o.msg;
            c.hash = o.hash;
            // The run reports the tapes it really used (trimmed, clamped).
            if !o.tapes.w.is_empty() || !o.tapes.s.is_empty() || !o.tapes.f.is_empty() {
                let mut d = c.clone();
                d.tapes = o.tapes;
                if weight(&d) <= weight(&c) {
                    c = d;
                }
            }
            *best = c;
            true
        } else {
            false
        }
    };
    fn get(t: &Tapes, k: usize) -> &Vec<u64> {
        match k {
            0 => &t.f,
            1 => &t.s,
            _ => &t.w,
        }
    }
    fn get_mut(t: &mut Tapes, k: usize) -> &mut Vec<u64> {
        match k {
            0 => &mut t.f,
            1 => &mut t.s,
            _ => &mut t.w,
        }
    }
    // Whole tapes first.
    for k in [0, 1] {
        let mut c = best.tapes.clone();
        get_mut(&mut c, k).clear();
        attempt(&mut best, c);
    }
    loop {
        let before = weight(&best);
        for k in [0usize, 1, 2] {
            // Truncate.
            let mut keep = get(&best.tapes, k).len() / 2;
            while t0.elapsed() < budget {
                let n = get(&best.tapes, k).len();
                if n == 0 || keep >= n {
                    break;
                }
                let mut c = best.tapes.clone();
                get_mut(&mut c, k).truncate(keep);
                if attempt(&mut best, c) {
                    keep = get(&best.tapes, k).len() / 2;
                } else {
                    keep += ((n - keep) / 2).max(1);
                }
            }
            // Delete or zero chunks.
            let mut chunk = (get(&best.tapes, k).len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < get(&best.tapes, k).len() && t0.elapsed() < budget {
                    let mut c = best.tapes.clone();
                    let v = get_mut(&mut c, k);
                    let e = (i + chunk).min(v.len());
                    v.drain(i..e);
                    if attempt(&mut best, c) {
                        continue;
                    }
                    let mut c = best.tapes.clone();
                    let v = get_mut(&mut c, k);
                    let e = (i + chunk).min(v.len());
                    if v[i..e].iter().any(|x| *x != 0) {
                        v[i..e].iter_mut().for_each(|x| *x = 0);
                        attempt(&mut best, c);
                    }
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            // Shrink values.
            let mut i = 0;
            while i < get(&best.tapes, k).len() && t0.elapsed() < budget {
                loop {
                    let v = match get(&best.tapes, k).get(i) {
                        Some(v) if *v > 0 => *v,
                        _ => break,
                    };
                    let mut ok = false;
                    for nv in [v / 2, v - 1] {
                        let mut c = best.tapes.clone();
                        get_mut(&mut c, k)[i] = nv;
                        if nv != v && attempt(&mut best, c) {
                            ok = true;
                            break;
                        }
                    }
                    if !ok || t0.elapsed() > budget {
                        break;
                    }
                }
                i += 1;
            }
        }
        if weight(&best) >= before || t0.elapsed() > budget {
            break;
        }
    }
    eprintln!("minimised in {} attempts, {:.1} s", tries, t0.elapsed().as_secs_f64());
    best
}

fn replay_cmd(props: &[Prop], file: &str) -> i32 {
    let r = read_replay(Path::new(file));
    if r.bin != bin_name() {
        eprintln!("this file belongs to binary {}", r.bin);
        return 64;
    }
    let Some(p) = props.iter().find(|p| p.id == r.property) else {
        eprintln!("unknown property {}", r.property);
        return 64;
    };
    let tmp = tmpdir();
    let o = try_file(p.id, &tmp, &r, true, STALL);
    let _ = fs::remove_dir_all(&tmp);
    for l in &o.log {
        println!("{l}");
    }
    match o.class {
        Some(c) if c == "HARNESS" => {
            println!("harness error: {}", o.msg);
            5
        }
        Some(c) => {
            let same = c == r.class && (o.hash == r.hash || c.starts_with("crash") || c == "stall");
            println!("class {c}: {}", o.msg);
            println!("{}", if same { "reproduced exactly" } else { "failed, but differently from the recorded run" });
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("no violation: the property holds on this run");
            0
        }
    }
}

fn tmpdir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("dst-{}", std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

/* ------------------------------------------------------------------- check */

#[derive(Default)]
struct Agg {
    runs: u64,
    ticks: u64,
    switches: u64,
    faults: u64,
    capped: u64,
    stats: BTreeMap<String, (u64, u64)>,
    samples: Vec<u64>,
    knowns: BTreeMap<String, u64>,
    viol: Option<(u64, Violation, Tapes)>,
    herr: Option<String>,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn check_cmd(p: &Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = argn(args, "--seed", 1);
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let nw = argn(args, "--workers", ncpu as u64).max(1) as usize;
    let runs = argn(args, "--runs", if thorough { p.thorough } else { p.quick });
    let max = argn(args, "--max-secs", if thorough { 3600 } else { 150 });
    let tmp = tmpdir();
    let mut agg = Agg::default();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids = vec![];
    let start_worker = |k: usize, from: u64| {
        let prog = tmp.join(format!("prog{k}"));
        fs::write(&prog, u64::MAX.to_le_bytes()).unwrap();
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args([
                "worker",
                p.id,
                "--seed",
                &seed.to_string(),
                "--start",
                &from.to_string(),
                "--cpu",
                &k.to_string(),
                "--stride",
                &nw.to_string(),
                "--end",
                &runs.to_string(),
                "--max-secs",
                &max.to_string(),
                "--progress",
                &prog.display().to_string(),
                "--hashes",
                &tmp.join(format!("hash{k}")).display().to_string(),
            ])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                let _ = tx.send(Msg::Line(k, l));
            }
            let _ = tx.send(Msg::Eof(k));
        });
        (ch, prog, u64::MAX, Instant::now(), false, false) // last idx, since, ended(END), eof
    };
    for k in 0..nw {
        kids.push(start_worker(k, k as u64));
    }
    let mut killed: Vec<Vec<u64>> = vec![vec![]; nw];
    let mut cur_tapes: Vec<(u64, Violation, Tapes)> = (0..nw)
        .map(|_| {
            (
                0,
                Violation {
                    class: String::new(),
                    msg: String::new(),
                },
                Tapes::default(),
            )
        })
        .collect();
    let mut open = nw;
    let mut stop_at: Option<Instant> = None;
    while open > 0 {
        if let Some(s) = stop_at {
            if Instant::now() > s {
                for k in kids.iter_mut() {
                    let _ = k.0.kill();
                }
                stop_at = Some(Instant::now() + Duration::from_secs(3600));
            }
        }
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(k, l)) => {
                let (key, v) = l.split_once(' ').unwrap_or((l.as_str(), ""));
                match key {
                    "RUNS" => agg.runs += v.parse::<u64>().unwrap(),
                    "TICKS" => agg.ticks += v.parse::<u64>().unwrap(),
                    "SWITCHES" => agg.switches += v.parse::<u64>().unwrap(),
                    "FAULTS" => agg.faults += v.parse::<u64>().unwrap(),
                    "CAPPED" => agg.capped += v.parse::<u64>().unwrap(),
                    "SAMPLE" => agg.samples.push(v.parse().unwrap()),
                    "STAT" => {
                        let f: Vec<&str> = v.split(' ').collect();
                        let e = agg.stats.entry(f[0].to_string()).or_insert((0, 0));
                        e.0 += f[1].parse::<u64>().unwrap();
                        e.1 += f[2].parse::<u64>().unwrap();
                    }
                    "KNOWN" => {
                        let (n, d) = v.split_once(' ').unwrap();
                        *agg.knowns.entry(d.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                    }
                    "HERR" => {
                        agg.herr = Some(unesc(v));
                        stop_at = Some(Instant::now());
                    }
                    "VIOL" => {
                        let mut it = v.splitn(3, ' ');
                        let idx = it.next().unwrap().parse().unwrap();
                        let class = it.next().unwrap_or("").to_string();
                        let msg = unesc(it.next().unwrap_or(""));
                        cur_tapes[k] = (idx, Violation { class, msg }, Tapes::default());
                    }
                    "TW" => cur_tapes[k].2.w = parse_tape(v),
                    "TS" => cur_tapes[k].2.s = parse_tape(v),
                    "TF" => cur_tapes[k].2.f = parse_tape(v),
                    "ENDVIOL" => {
                        kids[k].4 = true;
                        let c = cur_tapes[k].clone();
                        if agg.viol.as_ref().is_none_or(|v| c.0 < v.0) {
                            agg.viol = Some(c);
                        }
                        if stop_at.is_none() {
                            stop_at = Some(Instant::now() + Duration::from_millis(1500));
                        }
                    }
                    "END" => kids[k].4 = true,
                    _ => {}
                }
            }
            Ok(Msg::Eof(k)) => {
                open -= 1;
                kids[k].5 = true;
                let st = kids[k].0.wait().unwrap();
                let idx = read_prog(&kids[k].1);
                if st.signal() == Some(9) && !kids[k].4 && stop_at.is_none() && killed[k].len() < 2 && !killed[k].contains(&idx) {
                    // Killed from outside, most likely for the memory others
                    // hold. Go on from there; the run itself is to blame if it
                    // happens there again.
                    eprintln!("{}: a worker was killed from outside at run {idx}, starting it again", p.id);
                    killed[k].push(idx);
                    kids[k] = start_worker(k, if idx == u64::MAX { k as u64 } else { idx });
                    open += 1;
                    continue;
                }
                if !kids[k].4 && agg.herr.is_none() && agg.viol.is_none() {
                    // Died inside a run.
                    let idx = read_prog(&kids[k].1);
                    agg.viol = Some((
                        idx,
                        Violation {
                            class: match st.signal() {
                                Some(s) => format!("crash-signal-{s}"),
                                None => format!("crash-exit-{}", st.code().unwrap_or(-1)),
                            },
                            msg: format!("the process died inside run {idx}"),
                        },
                        Tapes::default(),
                    ));
                    stop_at = Some(Instant::now());
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        // Stalls.
        for k in kids.iter_mut() {
            if k.4 || k.5 {
                continue;
            }
            let idx = read_prog(&k.1);
            if idx != k.2 {
                k.2 = idx;
                k.3 = Instant::now();
            } else if k.3.elapsed() > STALL && agg.viol.is_none() {
                agg.viol = Some((
                    idx,
                    Violation {
                        class: "stall".into(),
                        msg: format!("run {idx} made no progress for {} s of real time", STALL.as_secs()),
                    },
                    Tapes::default(),
                ));
                stop_at = Some(Instant::now());
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut nontriv: HashSet<u64> = HashSet::new();
    let mut ilv: HashSet<u64> = HashSet::new();
    for k in 0..nw {
        if let Ok(b) = fs::read(tmp.join(format!("hash{k}"))) {
            let u: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            if u.is_empty() {
                continue;
            }
            let n = u[0] as usize;
            nontriv.extend(&u[1..1 + n]);
            ilv.extend(&u[1 + n..]);
        }
    }
    if let Some(e) = &agg.herr {
        eprintln!("HARNESS ERROR in {}: {e}", p.id);
        let _ = fs::remove_dir_all(&tmp);
        return 6;
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((idx, v, tapes)) = agg.viol.clone() {
        match report(p, &tmp, seed, idx, nw as u64, v, tapes, thorough) {
            Some(path) => {
                violations = 1;
                println!("VIOLATION property={} replay={}", p.id, path.display());
                code = 1;
            }
            None => {
                eprintln!("HARNESS ERROR in {}: run {idx} failed once and never again", p.id);
                code = 7;
            }
        }
    }
    for (k, n) in &agg.knowns {
        println!("KNOWN-FINDING: property={} {} ({} runs)", p.id, k, n);
    }
    // Samples and a determinism re-check, each in a fresh process.
    let mut samples = vec![];
    agg.samples.sort();
    let mut recheck = (0u64, 0u64);
    if code == 0 {
        for idx in agg.samples.iter().take(3) {
            let a: Vec<String> = ["try", p.id, "--seed", &seed.to_string(), "--idx", &idx.to_string(), "--verbose"]
                .iter()
                .map(|s| s.to_string())
                .collect();
            let o = run_child(&a, STALL);
            let mut lines = o.log;
            if lines.len() > 60 {
                let n = lines.len() - 60;
                lines.truncate(60);
                lines.push(format!("... {n} more events"));
            }
            samples.push((format!("VERIF_SEED={seed} run={idx}"), lines));
        }
        recheck = determinism(p, seed, runs.min(240));
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, &tier, seed, &agg, nontriv.len(), ilv.len(), &samples, recheck, search_s, wall, violations, nw);
    let _ = fs::remove_dir_all(&tmp);
    println!(
        "{} {} seed={} runs={} distinct-nontrivial={} interleavings={} faults={} ticks={} wall={:.1}s{}",
        p.id,
        tier,
        seed,
        agg.runs,
        nontriv.len(),
        ilv.len(),
        agg.faults,
        agg.ticks,
        wall,
        if agg.capped > 0 { " (time cap reached)" } else { "" }
    );
    code
}

/// Two fresh processes, different sharding: the run digests must agree.
fn determinism(p: &Prop, seed: u64, n: u64) -> (u64, u64) {
    let go = |start: u64, stride: u64| -> Vec<String> {
        let out = Command::new(std::env::current_exe().unwrap())
            .args([
                "hashes",
                p.id,
                "--seed",
                &seed.to_string(),
                "--start",
                &start.to_string(),
                "--stride",
                &stride.to_string(),
                "--end",
                &n.to_string(),
            ])
            .stderr(Stdio::null())
            .output()
            .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
            .unwrap_or_default();
        out.lines().map(|s| s.to_string()).collect()
    };
    let (a, mut b) = std::thread::scope(|s| {
        let h1 = s.spawn(|| go(0, 1));
        let hs: Vec<_> = (0..3).map(|k| s.spawn(move || go(k, 3))).collect();
        let mut b = vec![];
        for h in hs {
            b.extend(h.join().unwrap());
        }
        (h1.join().unwrap(), b)
    });
    b.sort_by_key(|l| l.split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0));
    let bad = a.iter().zip(&b).filter(|(x, y)| x != y).count() as u64 + (a.len() as i64 - b.len() as i64).unsigned_abs();
    (a.len() as u64, bad)
}

fn read_prog(p: &Path) -> u64 {
    fs::read(p)
        .ok()
        .and_then(|b| b.get(0..8).map(|c| u64::from_le_bytes(c.try_into().unwrap())))
        .unwrap_or(u64::MAX)
}

/// Confirm in a fresh process, minimise, write the replay file.
#[allow(clippy::too_many_arguments)]
fn report(p: &Prop, tmp: &Path, seed: u64, idx: u64, stride: u64, v: Violation, tapes: Tapes, thorough: bool) -> Option<PathBuf> {
    let mut r = Replay {
        property: p.id.into(),
        bin: bin_name(),
        profile: profile().into(),
        class: v.class.clone(),
        msg: v.msg.clone(),
        tapes,
        ..Default::default()
    };
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-run{}.replay", p.id, seed, idx));
    let crash = v.class.starts_with("crash") || v.class == "stall";
    let mut confirmed = false;
    if crash {
        // Recover the tapes up to the point of death.
        let dump = tmp.join("dump");
        let a: Vec<String> = [
            "try",
            p.id,
            "--seed",
            &seed.to_string(),
            "--idx",
            &idx.to_string(),
            "--dump",
            &dump.display().to_string(),
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        let o = run_child(&a, STALL);
        if let Some(c) = o.class.filter(|c| c != "HARNESS") {
            r.class = c;
            r.msg = o.msg;
            for l in fs::read_to_string(&dump).unwrap_or_default().lines() {
                let (k, v) = l.split_once(' ').unwrap_or(("", ""));
                let Ok(v) = v.parse() else { continue };
                match k {
                    "w" => r.tapes.w.push(v),
                    "s" => r.tapes.s.push(v),
                    "f" => r.tapes.f.push(v),
                    _ => {}
                }
            }
            let o2 = try_file(p.id, tmp, &r, false, STALL);
            confirmed = o2.class.as_deref() == Some(&r.class);
        }
    } else {
        let o = try_file(p.id, tmp, &r, false, STALL);
        if o.class.as_deref() == Some(&r.class) {
            confirmed = true;
            r.hash = o.hash;
        } else if let Some(c) = o.class.filter(|c| c != "HARNESS") {
            confirmed = true;
            r.class = c;
            r.msg = o.msg;
            r.hash = o.hash;
        }
    }
    if confirmed {
        let budget = Duration::from_secs(if thorough { 180 } else { 45 });
        r = minimise(p, tmp, r, budget);
    } else {
        // The failure needs state left by earlier runs of the same process.
        let first = idx % stride;
        let all: Vec<u64> = (0..).map(|i| first + i * stride).take_while(|i| *i <= idx).collect();
        let mut k = 2usize;
        loop {
            let lo = all.len().saturating_sub(k);
            let mut c = r.clone();
            c.tapes = Tapes::default();
            c.seq = Some((seed, all[lo..].to_vec()));
            let o = try_file(p.id, tmp, &c, false, Duration::from_secs(200));
            if let Some(cl) = o.class.filter(|c| c != "HARNESS") {
                c.class = cl;
                c.msg = o.msg;
                c.hash = o.hash;
                r = c;
                confirmed = true;
                break;
            }
            if lo == 0 {
                break;
            }
            k *= 4;
        }
    }
    if !confirmed {
        // Seen, but not repeatable: still a violation when the library itself
        // is what is not repeatable; say so and keep the seed.
        r.msg = format!("{} (seen once at run {idx}; did not recur in a fresh process)", r.msg);
        r.seq = Some((seed, vec![idx]));
        if crash {
            return None;
        }
    }
    let o = try_file(p.id, tmp, &r, true, STALL);
    if o.hash != 0 {
        r.hash = o.hash;
    }
    write_replay(&path, &r, &o.log);
    println!("{}: {}", r.class, r.msg);
    println!(
        "seed={} run={} workload={} schedule={} faults={} choices after minimisation",
        seed,
        idx,
        r.tapes.w.len(),
        r.tapes.s.len(),
        r.tapes.f.len()
    );
    let n = o.log.len();
    for l in o.log.iter().skip(n.saturating_sub(40)) {
        println!("  {l}");
    }
    Some(path)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    a: &Agg,
    nontriv: usize,
    ilv: usize,
    samples: &[(String, Vec<String>)],
    recheck: (u64, u64),
    search_s: f64,
    wall: f64,
    violations: u64,
    workers: usize,
) {
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, " \"property\": {},", js(p.id));
    let _ = writeln!(s, " \"tier\": {},", js(tier));
    let _ = writeln!(s, " \"seed\": {seed},");
    let _ = writeln!(s, " \"level\": \"exploration\",");
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", a.runs);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {nontriv},");
    let _ = writeln!(s, "  \"rule\": {},", js(p.rule));
    let _ = writeln!(s, "  \"runs_per_hour\": {},", (a.runs as f64 / search_s * 3600.0) as u64);
    let _ = writeln!(s, "  \"seeds_per_hour\": {},", (a.runs as f64 / search_s * 3600.0) as u64);
    let _ = writeln!(s, "  \"search_seconds\": {search_s:.2},");
    let _ = writeln!(s, "  \"worker_processes\": {workers},");
    let _ = writeln!(s, "  \"profile\": {},", js(profile()));
    let _ = writeln!(s, "  \"time_cap_reached_by_workers\": {},", a.capped);
    let _ = writeln!(s, "  \"simulated_ticks\": {},", a.ticks);
    let _ = writeln!(s, "  \"task_switches\": {},", a.switches);
    let _ = writeln!(s, "  \"distinct_interleavings\": {ilv},");
    let _ = writeln!(
        s,
        "  \"interleaving_measure\": {},",
        js("hash of the sequence of (event history so far, next task) at every baton hand-over of a run; runs without a hand-over are not counted")
    );
    let _ = writeln!(s, "  \"faults_injected_total\": {},", a.faults);
    let (fk, pk): (Vec<_>, Vec<_>) = a.stats.iter().partition(|(k, _)| k.starts_with("fault:"));
    let _ = writeln!(s, "  \"faults_injected\": {{");
    for (i, (k, (n, r))) in fk.iter().enumerate() {
        let _ = writeln!(s, "   {}: {{\"times\": {n}, \"runs\": {r}}}{}", js(k.trim_start_matches("fault:")), if i + 1 < fk.len() { "," } else { "" });
    }
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"probes\": {{");
    for (i, (k, (n, r))) in pk.iter().enumerate() {
        let _ = writeln!(s, "   {}: {{\"times\": {n}, \"runs\": {r}}}{}", js(k), if i + 1 < pk.len() { "," } else { "" });
    }
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"real_components\": {},", js(p.real));
    let _ = writeln!(s, "  \"stubbed_components\": {},", js(p.stub));
    let _ = writeln!(
        s,
        "  \"determinism_recheck\": {{\"runs\": {}, \"mismatches\": {}, \"how\": {}}},",
        recheck.0,
        recheck.1,
        js("the first runs executed again in fresh processes under two shardings (1 and 3 processes); event-log digests compared")
    );
    let _ = writeln!(s, "  \"samples\": [");
    for (i, (h, lines)) in samples.iter().enumerate() {
        let _ = writeln!(
            s,
            "   {{\"case\": {}, \"events\": [{}]}}{}",
            js(h),
            lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "),
            if i + 1 < samples.len() { "," } else { "" }
        );
    }
    let _ = writeln!(s, "  ]");
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [{}],", p.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"wall_s\": {wall:.2},");
    let _ = writeln!(s, " \"violations\": {violations}");
    let _ = writeln!(s, "}}");
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let f = dir.join(format!("{}.json", p.id));
    let t = dir.join(format!(".{}.tmp", p.id));
    fs::write(&t, s).and_then(|_| fs::rename(&t, &f)).expect("cannot write the evidence file");
    let _ = std::io::stdout().flush();
}
