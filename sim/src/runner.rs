//! Orchestration: search over seeds in worker processes, confirmation and
//! minimisation in fresh processes, replay, evidence.

use crate::ctx::{run_seed, Ctx, Res, RunOut};
use crate::props::{Prop, PROPS};
use crate::{alloc, model, sut};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const STACK: usize = 256 << 20;
/// CPU seconds one run may use (a normal run takes well under a millisecond)
const CPU_PER_RUN: f64 = 40.0;
/// wall seconds without a finished run, for runs that are blocked
const WALL_PER_RUN: f64 = 120.0;
/// Runs with this bit in their number do not restart the library, so that what
/// only shows after a long time has the time to show.
const LONG_LIVED: u64 = 1 << 15;
const SAMPLE: u64 = 400;
const MAX_HASHES: usize = 3_000_000;

// ---------------------------------------------------------------- system

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const Rlimit) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn _exit(code: i32) -> !;
    fn mallopt(param: i32, value: i32) -> i32;
    fn personality(persona: u64) -> i32;
}

fn limit_memory() {
    let r = Rlimit {
        cur: 4 << 30,
        max: 4 << 30,
    };
    let none = Rlimit { cur: 0, max: 0 };
    // SAFETY: plain libc calls with valid pointers (RLIMIT_AS, RLIMIT_CORE)
    unsafe {
        // one arena (M_ARENA_MAX): only one thread runs at any time
        mallopt(-8, 1);
        setrlimit(9, &r);
        setrlimit(4, &none);
    }
}

fn cpu_time() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: plain libc call (CLOCK_PROCESS_CPUTIME_ID)
    unsafe { clock_gettime(2, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// number of the run in progress, for the watchdog
static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
const HANG_EXIT: i32 = 97;

fn watchdog(cpu: f64, wall: f64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut cpu0 = 0.0;
        let mut wall0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = CURRENT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                cpu0 = cpu_time();
                wall0 = Instant::now();
            } else if now != u64::MAX
                && (cpu_time() - cpu0 > cpu || wall0.elapsed().as_secs_f64() > wall)
            {
                // SAFETY: ends the process
                unsafe { _exit(HANG_EXIT) };
            }
        }
    });
}

// ---------------------------------------------------------------- one run

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) if p.stepped && !jjbase::clock::stepped() => {
            eprintln!("jjsim: {id} needs the stepped build");
            std::process::exit(2);
        }
        Some(p) => p,
        None => {
            eprintln!("jjsim: no such property: {id}");
            std::process::exit(2);
        }
    }
}

fn execute(
    p: &Prop,
    ctx: Ctx,
    counters: &mut BTreeMap<&'static str, u64>,
) -> (Res, RunOut) {
    alloc::stop();
    alloc::set_yield(None);
    sut::plan_store(sut::PushFault::None);
    alloc::enter_run();
    let r = sut::guarded(|| (p.run)(&ctx));
    let r = r.and_then(|()| ctx.take_reported());
    let r = r.map_err(|v| alloc::pause(|| v.clone()));
    let kept = alloc::leave_run();
    if kept > 0 {
        *counters.entry("kept.runs").or_insert(0) += 1;
    }
    (r, ctx.finish(counters))
}

fn in_big_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("run thread")
    })
}

fn prepare() {
    crate::cold::remember("justjson");
    alloc::reserve();
    alloc::install_hook();
    sut::install_panic_hook();
}

// ---------------------------------------------------------------- findings

struct Known {
    property: String,
    id: String,
    what: String,
}

fn read_known(verif: &Path) -> Vec<Known> {
    let text = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else {
            continue;
        };
        let mut parts = rest.splitn(3, ' ');
        let (Some(p), Some(id), Some(what)) = (parts.next(), parts.next(), parts.next()) else {
            continue;
        };
        let Some(id) = id.strip_prefix("id=") else {
            continue;
        };
        out.push(Known {
            property: p.to_string(),
            id: id.to_string(),
            what: what.to_string(),
        });
    }
    out
}

/// Which of the listed findings does the tree under test have? Each is
/// identified by one specific input and its wrong output.
fn probe(known: &[Known]) -> Vec<&'static str> {
    let mut have = Vec::new();
    let r = std::panic::catch_unwind(|| {
        let d: String = justjson::JsonString::from_json("\"\\b\"")
            .map(|s| s.decoded().collect())
            .unwrap_or_default();
        let e: String = justjson::JsonString::from("\u{7}").as_json().collect();
        (d, e)
    });
    if let Ok((d, e)) = r {
        if d == "\u{7}" && known.iter().any(|k| k.id == "decode-b") {
            model::B_DECODES_TO_BEL.store(true, Ordering::Relaxed);
            have.push("decode-b");
        }
        if e == "\\b" && known.iter().any(|k| k.id == "encode-bel") {
            model::BEL_ENCODES_AS_B.store(true, Ordering::Relaxed);
            have.push("encode-bel");
        }
    }
    have
}

// ---------------------------------------------------------------- arguments

struct Args {
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}

impl Args {
    fn parse() -> Args {
        let mut a = Args {
            pos: Vec::new(),
            opt: BTreeMap::new(),
        };
        let mut it = std::env::args().skip(1);
        while let Some(x) = it.next() {
            if let Some(name) = x.strip_prefix("--") {
                let v = it.next().unwrap_or_default();
                a.opt.insert(name.to_string(), v);
            } else {
                a.pos.push(x);
            }
        }
        a
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.opt
            .get(name)
            .and_then(|v| v.parse().ok())
            .unwrap_or(default)
    }
    fn verif(&self) -> PathBuf {
        PathBuf::from(self.opt.get("verif").map_or("/verif", |s| s.as_str()))
    }
    fn thorough(&self) -> bool {
        self.opt.get("tier").is_some_and(|t| t == "thorough")
    }
}

/// Processes started from here on have the same address layout every time
/// (ADDR_NO_RANDOMIZE), where that is permitted.
fn fixed_layout() {
    // SAFETY: plain libc calls
    unsafe {
        let now = personality(0xffff_ffff);
        if now >= 0 {
            personality(now as u64 | 0x004_0000);
        }
    }
}

pub fn main() -> i32 {
    fixed_layout();
    let args = Args::parse();
    prepare();
    let known = read_known(&args.verif());
    let have = probe(&known);
    match args.pos.first().map(String::as_str) {
        Some("check") => check(&args, &known, &have),
        Some("worker") => worker(&args),
        Some("one") => one(&args),
        Some("replay") => replay(&args),
        Some("list") => {
            for p in PROPS {
                println!("{} {}", p.id, if p.stepped { "stepped" } else { "release" });
            }
            0
        }
        _ => {
            eprintln!("usage: jjsim check|replay|worker|one ...");
            2
        }
    }
}

// ---------------------------------------------------------------- worker

fn one_line(s: &str) -> String {
    s.replace(['\n', '\r'], " ")
}

fn tape_text(t: &[u32]) -> String {
    let mut s = String::with_capacity(t.len() * 3);
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let _ = write!(s, "{x}");
    }
    s
}

/// Runs start, start+stride, ... below end; stops at the first violation.
fn worker(args: &Args) -> i32 {
    limit_memory();
    let p = prop(&args.pos[1]);
    let seed = args.num("seed", 1);
    let thorough = args.thorough();
    let start = args.num("start", 0);
    let stride = args.num("stride", 1);
    let end = args.num("end", 1);
    let reverse = args.num("reverse", 0) == 1;
    let deadline = Duration::from_secs(args.num("deadline", 3600));
    let out = PathBuf::from(&args.opt["out"]);
    let begun = Instant::now();
    watchdog(CPU_PER_RUN, WALL_PER_RUN);
    let status = fs::File::create(out.with_extension("at")).expect("status file");
    let mut list: Vec<u64> = Vec::new();
    if let Some(f) = args.opt.get("list") {
        let l = fs::read_to_string(f).expect("list of runs");
        list = l.trim().split(',').filter_map(|x| x.parse().ok()).collect();
    } else if reverse {
        let mut i = start;
        while i < end {
            list.push(i);
            i += stride;
        }
        list.reverse();
    }
    in_big_thread(move || {
        let mut counters = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut traces: HashSet<u64> = HashSet::new();
        let mut early = Vec::new();
        let (mut runs, mut steps, mut faults, mut switches, mut nontrivial, mut draws) =
            (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
        let mut violation = String::new();
        let mut digest = 0u64;
        let mut capped = 0;
        let mut n = 0;
        loop {
            let i = if list.is_empty() {
                start + n * stride
            } else if (n as usize) < list.len() {
                list[n as usize]
            } else {
                break;
            };
            if list.is_empty() && i >= end {
                break;
            }
            n += 1;
            if begun.elapsed() > deadline {
                capped = 1;
                break;
            }
            CURRENT.store(n, Ordering::Relaxed);
            use std::os::unix::fs::FileExt;
            let _ = status.write_all_at(&i.to_le_bytes(), 0);
            let ctx = Ctx::from_seed(run_seed(seed, p.id, i), false, thorough);
            // The runs whose logs are compared start from a library that was
            // just loaded, in a new thread: what it remembers may change how
            // often it allocates, and with that the schedule. The others find
            // whatever the runs before them left.
            crate::cold::long_lived(i & LONG_LIVED != 0);
            let (r, o) = if i < SAMPLE {
                crate::cold::restart();
                in_big_thread(|| execute(p, ctx, &mut counters))
            } else {
                execute(p, ctx, &mut counters)
            };
            runs += 1;
            steps += o.steps;
            faults += o.faults;
            switches += o.switches;
            draws += o.tape.len() as u64;
            digest = digest.wrapping_add(crate::ctx::mix(o.hash ^ crate::ctx::mix(i)) >> 8);
            if o.nontrivial {
                nontrivial += 1;
                if hashes.len() < MAX_HASHES {
                    hashes.insert(o.hash);
                }
                if traces.len() < MAX_HASHES {
                    traces.insert(o.trace);
                }
            }
            if i < SAMPLE || !list.is_empty() {
                early.push((i, o.hash));
            }
            if let Err(v) = r {
                violation = format!(
                    "viol {i}\t{}\t{}\t{}\n",
                    one_line(&v.class),
                    one_line(&v.msg),
                    tape_text(&o.tape)
                );
                break;
            }
        }
        CURRENT.store(u64::MAX, Ordering::Relaxed);
        let mut s = format!(
            "runs {runs}\nsteps {steps}\nfaults {faults}\nswitches {switches}\nnontrivial {nontrivial}\ndraws {draws}\ncapped {capped}\ndigest {digest}\n"
        );
        for (k, v) in &counters {
            let _ = writeln!(s, "counter {k} {v}");
        }
        for (i, h) in &early {
            let _ = writeln!(s, "hash {i} {h}");
        }
        s.push_str(&violation);
        s.push_str("end\n");
        let dump = |set: &HashSet<u64>, ext: &str| {
            let mut b = Vec::with_capacity(set.len() * 8);
            for h in set {
                b.extend_from_slice(&h.to_le_bytes());
            }
            fs::write(out.with_extension(ext), b).expect("hash file");
        };
        dump(&hashes, "hashes");
        dump(&traces, "traces");
        fs::write(&out, s).expect("worker result");
    });
    0
}

/// One run from a tape on standard input.
fn one(args: &Args) -> i32 {
    limit_memory();
    let p = prop(&args.pos[1]);
    let verbose = args.num("verbose", 0) == 1;
    watchdog(
        args.num("cpu", CPU_PER_RUN as u64) as f64,
        args.num("wall", WALL_PER_RUN as u64) as f64,
    );
    let thorough = args.thorough();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("tape");
    CURRENT.store(0, Ordering::Relaxed);
    let seeded = args.opt.get("index").map(|_| {
        run_seed(args.num("seed", 1), p.id, args.num("index", 0))
    });
    let (r, o) = in_big_thread(move || {
        let mut counters = BTreeMap::new();
        let ctx = match seeded {
            Some(s) => Ctx::from_seed(s, verbose, thorough),
            None => {
                let tape = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                Ctx::from_tape(tape, verbose, thorough)
            }
        };
        execute(p, ctx, &mut counters)
    });
    println!("tape {}", tape_text(&o.tape));
    println!("loghash {:016x}", o.hash);
    if let Err(v) = &r {
        println!("class {}", one_line(&v.class));
        println!("msg {}", one_line(&v.msg));
    }
    if let Some(t) = o.text {
        println!("log");
        println!("{t}");
    }
    i32::from(r.is_err())
}

// ---------------------------------------------------------------- fresh runs

struct Fresh {
    class: Option<String>,
    msg: String,
    tape: Vec<u32>,
    log: String,
    hash: String,
}

fn me() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

fn death(code: Option<i32>, stderr: &str) -> (String, String) {
    if code == Some(HANG_EXIT) {
        return (
            "no progress".into(),
            "the run did not end (time limit for one run)".into(),
        );
    }
    if code == Some(jjbase::clock::STUCK_EXIT) {
        let last = stderr.lines().rev().find_map(|l| l.strip_prefix("jjsim: "));
        return ("no progress".into(), one_line(last.unwrap_or("nothing can ever happen again")));
    }
    let mut msg = match code {
        None => "the process was killed by a signal".to_string(),
        Some(c) => format!("the process ended with status {c}"),
    };
    let tail: String = stderr.trim().chars().take(300).collect();
    if !tail.is_empty() {
        let _ = write!(msg, ": {}", one_line(&tail));
    }
    ("process death".into(), msg)
}

/// Runs one tape (or one seeded run) in a fresh process.
fn fresh(p: &Prop, src: Source<'_>, env: &Env, verbose: bool, cpu: u64) -> Fresh {
    let mut cmd = Command::new(me());
    cmd.arg("one")
        .arg(p.id)
        .args(["--verif", &env.verif.to_string_lossy()])
        .args(["--tier", env.tier])
        .args(["--verbose", if verbose { "1" } else { "0" }])
        .args(["--cpu", &cpu.to_string()])
        .args(["--wall", &(cpu * 2).to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut input = String::new();
    match src {
        Source::Tape(t) => input = tape_text(t),
        Source::Index(i) => {
            cmd.args(["--seed", &env.seed.to_string()])
                .args(["--index", &i.to_string()]);
        }
    }
    let mut child = cmd.spawn().expect("spawn");
    if let Some(mut i) = child.stdin.take() {
        let _ = i.write_all(input.as_bytes());
    }
    let o = child.wait_with_output().expect("wait");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut f = Fresh {
        class: None,
        msg: String::new(),
        tape: Vec::new(),
        log: String::new(),
        hash: String::new(),
    };
    let (head, log) = match text.split_once("\nlog\n") {
        Some((h, l)) => (h.to_string(), l.to_string()),
        None => (text.clone(), String::new()),
    };
    f.log = log;
    for l in head.lines() {
        if let Some(t) = l.strip_prefix("tape ") {
            f.tape = t.split(' ').filter_map(|x| x.parse().ok()).collect();
        } else if let Some(t) = l.strip_prefix("class ") {
            f.class = Some(t.to_string());
        } else if let Some(t) = l.strip_prefix("msg ") {
            f.msg = t.to_string();
        } else if let Some(t) = l.strip_prefix("loghash ") {
            f.hash = t.to_string();
        }
    }
    match o.status.code() {
        Some(0 | 1) => {}
        code => {
            let (c, m) = death(code, &String::from_utf8_lossy(&o.stderr));
            f.class = Some(c);
            f.msg = m;
            if let Source::Tape(t) = src {
                f.tape = t.to_vec();
            }
        }
    }
    f
}

#[derive(Clone, Copy)]
enum Source<'x> {
    Tape(&'x [u32]),
    Index(u64),
}

struct Env {
    verif: PathBuf,
    tier: &'static str,
    seed: u64,
}

/// Runs a list of seeded runs in one fresh process; the violation of the last.
fn fresh_list(p: &Prop, list: &[u64], env: &Env, scratch: &Path) -> Option<(u64, String, String)> {
    let out = scratch.join("list");
    let _ = fs::remove_file(&out);
    let l: Vec<String> = list.iter().map(u64::to_string).collect();
    let file = scratch.join("list.txt");
    fs::write(&file, l.join(",")).expect("list of runs");
    let o = Command::new(me())
        .arg("worker")
        .arg(p.id)
        .args(["--verif", &env.verif.to_string_lossy()])
        .args(["--tier", env.tier])
        .args(["--seed", &env.seed.to_string()])
        .args(["--list", &file.to_string_lossy()])
        .args(["--out", &out.to_string_lossy()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("worker");
    let r = read_result(&out);
    if let Some(v) = r.violation {
        return Some((v.index, v.class, v.msg));
    }
    if o.status.code() != Some(0) {
        let at = read_status(&out);
        let (c, m) = death(o.status.code(), &String::from_utf8_lossy(&o.stderr));
        return Some((at.unwrap_or(0), c, m));
    }
    None
}

// ---------------------------------------------------------------- results

#[derive(Default)]
struct WorkerResult {
    nums: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    hashes: BTreeMap<u64, u64>,
    violation: Option<Found>,
    complete: bool,
}

#[derive(Clone)]
struct Found {
    index: u64,
    class: String,
    msg: String,
    tape: Vec<u32>,
}

fn read_result(path: &Path) -> WorkerResult {
    let mut r = WorkerResult::default();
    let Ok(text) = fs::read_to_string(path) else {
        return r;
    };
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("counter ") {
            if let Some((n, v)) = x.rsplit_once(' ') {
                r.counters.insert(n.to_string(), v.parse().unwrap_or(0));
            }
        } else if let Some(x) = l.strip_prefix("hash ") {
            if let Some((n, v)) = x.split_once(' ') {
                r.hashes
                    .insert(n.parse().unwrap_or(0), v.parse().unwrap_or(0));
            }
        } else if let Some(x) = l.strip_prefix("viol ") {
            let f: Vec<&str> = x.split('\t').collect();
            if f.len() == 4 {
                r.violation = Some(Found {
                    index: f[0].parse().unwrap_or(0),
                    class: f[1].to_string(),
                    msg: f[2].to_string(),
                    tape: f[3].split(' ').filter_map(|x| x.parse().ok()).collect(),
                });
            }
        } else if l == "end" {
            r.complete = true;
        } else if let Some((n, v)) = l.split_once(' ') {
            r.nums.insert(n.to_string(), v.parse().unwrap_or(0));
        }
    }
    r
}

fn read_status(out: &Path) -> Option<u64> {
    let b = fs::read(out.with_extension("at")).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

// ---------------------------------------------------------------- shrink

/// Same class with a smaller tape; every candidate runs in a fresh process.
fn shrink(p: &Prop, env: &Env, class: &str, tape: Vec<u32>, cpu: u64) -> (Vec<u32>, u64) {
    let begun = Instant::now();
    let budget = Duration::from_secs(if env.tier == "thorough" { 120 } else { 30 });
    let threads = std::thread::available_parallelism().map_or(4, usize::from).min(8);
    let mut best = tape;
    while best.last() == Some(&0) {
        best.pop();
    }
    let mut tried = 0u64;
    // Tries candidates in parallel; the first (by order) that fails alike wins.
    let attempt = |cands: Vec<Vec<u32>>, tried: &mut u64| -> Option<Vec<u32>> {
        *tried += cands.len() as u64;
        let found: Vec<Option<Vec<u32>>> = std::thread::scope(|s| {
            let hs: Vec<_> = cands
                .into_iter()
                .map(|t| {
                    s.spawn(move || {
                        let f = fresh(p, Source::Tape(&t), env, false, cpu);
                        (f.class.as_deref() == Some(class)).then(|| {
                            let mut u = if f.tape.is_empty() || f.tape.len() > t.len() { t } else { f.tape };
                            while u.last() == Some(&0) {
                                u.pop();
                            }
                            u
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        found.into_iter().flatten().next()
    };
    let smaller = |a: &Vec<u32>, b: &Vec<u32>| {
        (a.len(), a.iter().map(|x| u64::from(*x)).sum::<u64>(), a)
            < (b.len(), b.iter().map(|x| u64::from(*x)).sum::<u64>(), b)
    };
    let mut progress = true;
    while progress && begun.elapsed() < budget {
        progress = false;
        // delete or zero blocks
        let mut size = best.len().max(1).next_power_of_two();
        while size >= 1 && begun.elapsed() < budget {
            let mut at = 0;
            while at < best.len() && begun.elapsed() < budget {
                let mut cands = Vec::new();
                let mut a = at;
                while cands.len() + 2 <= threads && a < best.len() {
                    let e = (a + size).min(best.len());
                    let mut d = best[..a].to_vec();
                    d.extend_from_slice(&best[e..]);
                    cands.push(d);
                    if best[a..e].iter().any(|x| *x != 0) {
                        let mut z = best.clone();
                        z[a..e].fill(0);
                        cands.push(z);
                    }
                    a = e;
                }
                match attempt(cands, &mut tried) {
                    Some(t) if smaller(&t, &best) => {
                        best = t;
                        progress = true;
                    }
                    _ => at = a,
                }
            }
            size /= 2;
        }
        // lower single numbers
        let mut at = 0;
        while at < best.len() && begun.elapsed() < budget {
            let v = best[at];
            if v > 0 {
                let mut cands = Vec::new();
                for w in [0, v / 2, v - 1] {
                    if w < v {
                        let mut t = best.clone();
                        t[at] = w;
                        cands.push(t);
                    }
                }
                if let Some(t) = attempt(cands, &mut tried) {
                    if smaller(&t, &best) {
                        best = t;
                        progress = true;
                        continue;
                    }
                }
            }
            at += 1;
        }
    }
    (best, tried)
}

// ---------------------------------------------------------------- replay

fn write_replay(
    env: &Env,
    p: &Prop,
    name: &str,
    f: &Found,
    body: &str,
    log: &str,
) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(name);
    let mut s = String::new();
    let _ = writeln!(s, "jjsim replay 1");
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "tier {}", env.tier);
    let _ = writeln!(s, "seed {}", env.seed);
    let _ = writeln!(s, "run {}", f.index);
    let _ = writeln!(s, "class {}", f.class);
    let _ = writeln!(s, "violation {}", f.msg);
    s.push_str(body);
    let _ = writeln!(s, "log (schedule, inputs and faults of the minimised run):");
    s.push_str(log);
    fs::write(&path, s).expect("replay file");
    path
}

fn replay(args: &Args) -> i32 {
    let path = PathBuf::from(&args.pos[1]);
    let text = fs::read_to_string(&path).expect("replay file");
    let field = |n: &str| {
        text.lines()
            .take_while(|l| !l.starts_with("log "))
            .find_map(|l| l.strip_prefix(n).and_then(|l| l.strip_prefix(' ')))
            .unwrap_or("")
            .to_string()
    };
    let p = prop(&field("property"));
    let env = Env {
        verif: args.verif(),
        tier: if field("tier") == "thorough" { "thorough" } else { "quick" },
        seed: field("seed").parse().unwrap_or(1),
    };
    let class = field("class");
    let runs = field("runs");
    let got = if runs.is_empty() {
        let tape: Vec<u32> = field("tape").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let f = fresh(p, Source::Tape(&tape), &env, true, CPU_PER_RUN as u64);
        print!("{}", f.log);
        f.class.map(|c| (c, f.msg))
    } else {
        let list: Vec<u64> = runs.split(',').filter_map(|x| x.parse().ok()).collect();
        let scratch = Scratch::new();
        fresh_list(p, &list, &env, &scratch.0).map(|(_, c, m)| (c, m))
    };
    match got {
        Some((c, m)) => {
            println!("class {c}");
            println!("violation {m}");
            if c != class {
                println!("(recorded class: {class})");
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => {
            println!("not reproduced on this tree");
            0
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map_or(0, |d| d.as_nanos());
        let d = std::env::temp_dir().join(format!("jjsim-{}-{n}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- check

fn spawn_worker(
    p: &Prop,
    env: &Env,
    out: &Path,
    start: u64,
    stride: u64,
    end: u64,
    deadline: u64,
    reverse: bool,
) -> Child {
    Command::new(me())
        .arg("worker")
        .arg(p.id)
        .args(["--verif", &env.verif.to_string_lossy()])
        .args(["--tier", env.tier])
        .args(["--seed", &env.seed.to_string()])
        .args(["--start", &start.to_string()])
        .env("JJSIM_CPU", start.to_string())
        .args(["--stride", &stride.to_string()])
        .args(["--end", &end.to_string()])
        .args(["--deadline", &deadline.to_string()])
        .args(["--reverse", if reverse { "1" } else { "0" }])
        .args(["--out", &out.to_string_lossy()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn worker")
}

fn check(args: &Args, known: &[Known], have: &[&'static str]) -> i32 {
    let begun = Instant::now();
    let p = prop(&args.pos[1]);
    let tier = if args.thorough() { "thorough" } else { "quick" };
    let env = Env {
        verif: args.verif(),
        tier,
        seed: args.num("seed", 1),
    };
    for k in known {
        if k.property == p.id && have.contains(&k.id.as_str()) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let cores = std::thread::available_parallelism().map_or(8, usize::from).clamp(1, 8) as u64;
    let cores = args.num("workers", cores).max(1);
    let (runs, deadline) = if tier == "thorough" {
        (
            args.num("runs", u64::MAX / 2),
            args.num("seconds", 600),
        )
    } else {
        (args.num("runs", p.quick_runs), args.num("seconds", 150))
    };
    let scratch = Scratch::new();
    let mut kids: Vec<(PathBuf, Child)> = (0..cores)
        .map(|w| {
            let out = scratch.0.join(format!("w{w}"));
            let c = spawn_worker(p, &env, &out, w, cores, runs, deadline, false);
            (out, c)
        })
        .collect();
    let mut found: Vec<Found> = Vec::new();
    let mut results = Vec::new();
    for (out, child) in kids.drain(..) {
        let o = child.wait_with_output().expect("worker");
        let r = read_result(&out);
        if !r.complete {
            let at = read_status(&out).unwrap_or(0);
            let (class, msg) = death(o.status.code(), &String::from_utf8_lossy(&o.stderr));
            found.push(Found {
                index: at,
                class,
                msg,
                tape: Vec::new(),
            });
        }
        if let Some(v) = &r.violation {
            found.push(v.clone());
        }
        results.push((out, r));
    }
    let searched = begun.elapsed().as_secs_f64();

    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut early: BTreeMap<u64, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut traces: HashSet<u64> = HashSet::new();
    for (out, r) in &results {
        for (k, v) in &r.nums {
            let e = nums.entry(k.clone()).or_insert(0);
            *e = e.wrapping_add(*v);
        }
        for (k, v) in &r.counters {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        early.extend(&r.hashes);
        for (set, ext) in [(&mut hashes, "hashes"), (&mut traces, "traces")] {
            for b in fs::read(out.with_extension(ext)).unwrap_or_default().chunks_exact(8) {
                set.insert(u64::from_le_bytes(b.try_into().expect("8")));
            }
        }
    }

    // The same runs in another process and order have the same logs.
    let mut repeated = 0;
    let mut differing = Vec::new();
    if found.is_empty() {
        let out = scratch.0.join("again");
        let child = spawn_worker(p, &env, &out, 0, 1, SAMPLE.min(runs), 300, true);
        let o = child.wait_with_output().expect("worker");
        let r = read_result(&out);
        if let Some(v) = r.violation {
            found.push(v);
        } else if !r.complete {
            let (class, msg) = death(o.status.code(), &String::from_utf8_lossy(&o.stderr));
            found.push(Found {
                index: read_status(&out).unwrap_or(0),
                class,
                msg,
                tape: Vec::new(),
            });
        } else {
            for (i, h) in &r.hashes {
                if let Some(e) = early.get(i) {
                    repeated += 1;
                    if e != h {
                        differing.push(*i);
                    }
                }
            }
        }
    }

    found.sort_by_key(|f| f.index);
    let mut code = 0;
    let mut line = String::new();
    let mut reported = Vec::new();
    if let Some(f) = found.first() {
        match confirm(p, &env, f, cores, &scratch.0) {
            Some((path, class, msg)) => {
                line = format!("VIOLATION property={} replay={}", p.id, path.display());
                reported.push(format!("{class}: {msg}"));
                println!("{class}: {msg}");
                code = 1;
            }
            None => {
                eprintln!(
                    "jjsim: run {} failed ({}: {}), but neither it nor the runs before it fail again",
                    f.index, f.class, f.msg
                );
                code = 3;
            }
        }
    } else if !differing.is_empty() {
        eprintln!("jjsim: warning: the logs of runs {differing:?} are not the same in another order");
    }

    let mut samples = Vec::new();
    if code == 0 {
        for i in [0, 1, 2] {
            let f = fresh(p, Source::Index(i), &env, true, CPU_PER_RUN as u64);
            let log: String = f.log.chars().take(1500).collect();
            samples.push((i, f.hash, log));
        }
    } else {
        for f in found.iter().take(1) {
            samples.push((f.index, String::new(), format!("{}: {}", f.class, f.msg)));
        }
    }
    let ev = evidence(
        p, &env, &nums, &counters, hashes.len(), traces.len(), searched,
        begun.elapsed().as_secs_f64(), repeated, &differing, &samples, &reported, have, known,
    );
    let dir = env.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), ev).expect("evidence");
    println!(
        "{} {tier}: {} runs, {} distinct non-trivial, {} faults, {:.1} s, seed {}",
        p.id,
        nums.get("runs").unwrap_or(&0),
        hashes.len(),
        nums.get("faults").unwrap_or(&0),
        begun.elapsed().as_secs_f64(),
        env.seed
    );
    if !line.is_empty() {
        println!("{line}");
    }
    code
}

/// Reproduces a violation in a fresh process, minimises it, writes the replay
/// file and checks that the file reproduces it.
fn confirm(
    p: &Prop,
    env: &Env,
    f: &Found,
    cores: u64,
    scratch: &Path,
) -> Option<(PathBuf, String, String)> {
    let name = format!("{}-{}-{}.replay", p.id, env.seed, f.index);
    let slow = f.class == "no progress";
    // the tape of a run that killed its process is not known: record it
    let first = fresh(p, Source::Index(f.index), env, false, CPU_PER_RUN as u64);
    if let Some(class) = first.class.clone() {
        let dead = class == "process death" || class == "no progress";
        let mut tape = first.tape.clone();
        if dead {
            // The process died before it could tell its tape; the seed is the
            // replay. A tape can still be had from the PRNG: draws depend on
            // the bounds, so record raw choices by running under the recorder.
            tape = recorded_tape(p, env, f.index, scratch).unwrap_or_default();
        }
        let again = fresh(p, Source::Tape(&tape), env, false, CPU_PER_RUN as u64);
        if again.class.as_deref() == Some(class.as_str()) {
            let cpu = if slow { 5 } else { CPU_PER_RUN as u64 };
            let (small, tried) = shrink(p, env, &class, tape.clone(), cpu);
            let fin = fresh(p, Source::Tape(&small), env, true, CPU_PER_RUN as u64);
            let (small, fin) = if fin.class.as_deref() == Some(class.as_str()) {
                (small, fin)
            } else {
                let fin = fresh(p, Source::Tape(&tape), env, true, CPU_PER_RUN as u64);
                (tape.clone(), fin)
            };
            let f2 = Found {
                index: f.index,
                class: class.clone(),
                msg: fin.msg.clone(),
                tape: small.clone(),
            };
            let body = format!(
                "minimised {} -> {} choices, {tried} candidates tried\ntape {}\n",
                tape.len(),
                small.len(),
                tape_text(&small)
            );
            let path = write_replay(env, p, &name, &f2, &body, &fin.log);
            return Some((path, class, fin.msg));
        }
    }
    // Not on its own: together with the runs before it in the same worker.
    let mut list: Vec<u64> = (0..=f.index).filter(|j| j % cores == f.index % cores).collect();
    let (_, class, mut msg) = fresh_list(p, &list, env, scratch)?;
    let begun = Instant::now();
    let budget = Duration::from_secs(60);
    let mut size = list.len() / 2;
    while size >= 1 && begun.elapsed() < budget {
        let mut at = 0;
        while at + size < list.len() && begun.elapsed() < budget {
            let mut l = list[..at].to_vec();
            l.extend_from_slice(&list[at + size..]);
            match fresh_list(p, &l, env, scratch) {
                Some((_, c, m)) if c == class => {
                    list = l;
                    msg = m;
                }
                _ => at += size,
            }
        }
        size /= 2;
    }
    let l: Vec<String> = list.iter().map(u64::to_string).collect();
    let f2 = Found {
        index: f.index,
        class: class.clone(),
        msg: msg.clone(),
        tape: Vec::new(),
    };
    let body = format!("runs {}\n", l.join(","));
    let path = write_replay(env, p, &name, &f2, &body, "several runs in one process; the last one fails\n");
    Some((path, class, msg))
}

/// The choices of a run that kills its process, mirrored to a file as drawn.
fn recorded_tape(p: &Prop, env: &Env, index: u64, scratch: &Path) -> Option<Vec<u32>> {
    let file = scratch.join("mirror");
    let _ = fs::remove_file(&file);
    let _ = Command::new(me())
        .arg("one")
        .arg(p.id)
        .args(["--verif", &env.verif.to_string_lossy()])
        .args(["--tier", env.tier])
        .args(["--seed", &env.seed.to_string()])
        .args(["--index", &index.to_string()])
        .env("JJSIM_MIRROR", &file)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let b = fs::read(&file).ok()?;
    Some(
        b.chunks_exact(4)
            .map(|x| u32::from_le_bytes(x.try_into().expect("4")))
            .collect(),
    )
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map(m: &BTreeMap<String, u64>, prefix: &str) -> String {
    let items: Vec<String> = m
        .iter()
        .filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| format!("{}: {v}", js(k))))
        .collect();
    format!("{{{}}}", items.join(", "))
}

fn list(l: &[&str]) -> String {
    let items: Vec<String> = l.iter().map(|s| js(s)).collect();
    format!("[{}]", items.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    env: &Env,
    nums: &BTreeMap<String, u64>,
    counters: &BTreeMap<String, u64>,
    distinct: usize,
    traces: usize,
    searched: f64,
    wall: f64,
    repeated: usize,
    differing: &[u64],
    samples: &[(u64, String, String)],
    reported: &[String],
    have: &[&'static str],
    known: &[Known],
) -> String {
    let n = |k: &str| nums.get(k).copied().unwrap_or(0);
    let per_hour = if searched > 0.0 {
        (n("runs") as f64 / searched * 3600.0) as u64
    } else {
        0
    };
    let s: Vec<String> = samples
        .iter()
        .map(|(i, h, l)| format!("{{\"run\": {i}, \"log_hash\": {}, \"log\": {}}}", js(h), js(l)))
        .collect();
    let findings: Vec<&str> = known
        .iter()
        .filter(|k| k.property == p.id && have.contains(&k.id.as_str()))
        .map(|k| k.what.as_str())
        .collect();
    let viols: Vec<&str> = reported.iter().map(String::as_str).collect();
    let mut o = String::new();
    let _ = writeln!(o, "{{");
    let _ = writeln!(o, "  \"property\": {},", js(p.id));
    let _ = writeln!(o, "  \"tier\": {},", js(env.tier));
    let _ = writeln!(o, "  \"seed\": {},", env.seed);
    let _ = writeln!(o, "  \"level\": {},", js(p.level));
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"evaluations\": {},", n("runs"));
    let _ = writeln!(o, "    \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(o, "    \"rule\": {},", js(p.rule));
    let _ = writeln!(o, "    \"samples\": [{}],", s.join(", "));
    let _ = writeln!(o, "    \"simulated_runs_per_hour_one_seed_each\": {per_hour},");
    let _ = writeln!(o, "    \"nontrivial_runs\": {},", n("nontrivial"));
    let _ = writeln!(
        o,
        "    \"simulated_time\": {{\"unit\": \"logged simulation steps (the library has no clock or timer)\", \"steps\": {}, \"choices_drawn\": {}{}}},",
        n("steps"),
        n("draws"),
        match counters.get("clock.ticks") {
            Some(t) => format!(", \"clock_ticks_one_per_basic_block\": {t}"),
            None => String::new(),
        }
    );
    let _ = writeln!(o, "    \"faults_injected\": {},", map(counters, "fault."));
    let _ = writeln!(o, "    \"faults_total\": {},", n("faults"));
    let _ = writeln!(o, "    \"context_switches\": {},", n("switches"));
    let _ = writeln!(o, "    \"distinct_schedule_and_fault_traces\": {traces},");
    let _ = writeln!(o, "    \"reached\": {},", map(counters, "probe."));
    let _ = writeln!(o, "    \"real_components\": {},", list(p.real));
    let _ = writeln!(o, "    \"stub_components\": {},", list(p.stubs));
    let _ = writeln!(
        o,
        "    \"determinism\": {{\"runs_repeated_in_another_process_and_order\": {repeated}, \"different_logs\": {}}},",
        differing.len()
    );
    let _ = writeln!(o, "    \"digest_of_all_logs\": \"{:016x}\",", n("digest"));
    let _ = writeln!(o, "    \"stopped_by_time_limit\": {},", n("capped") > 0);
    let _ = writeln!(o, "    \"known_findings_seen\": {},", list(&findings));
    let _ = writeln!(o, "    \"violations_reported\": {}", list(&viols));
    let _ = writeln!(o, "  }},");
    let _ = writeln!(
        o,
        "  \"assumptions\": {},",
        list(&[
            "the reference model (sim/src/model.rs) states the JSON grammar, the configuration options and the output layout correctly",
            "sampling: runs not drawn are not covered",
            "the checked build has debug assertions and overflow checks on"
        ])
    );
    let _ = writeln!(o, "  \"wall_s\": {wall:.3},");
    let _ = writeln!(o, "  \"violations\": {}", reported.len());
    let _ = writeln!(o, "}}");
    o
}
