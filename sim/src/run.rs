//! One run, and a worker process that makes many of them.

use crate::choice::{self, Trace, STREAMS, STREAM_NAMES};
use crate::drive::V;
use crate::note::Notes;
use crate::props::{self, Prop};
use crate::{note, panics, sched};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut h = base ^ 0x6a09_e667_f3bc_c908;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }
    choice::Rng::new(h ^ index.wrapping_mul(0x9e37_79b9_7f4a_7c15)).next() >> 1
}

pub struct Run {
    pub violation: Option<V>,
    pub trace: Trace,
    pub notes: Notes,
    pub stats: sched::Stats,
    pub states: HashSet<u64>,
}

/// Executes a property's scenario once in this process.
pub fn once(p: &Prop, seed: u64, fixed: Option<Trace>) -> Run {
    note::reset();
    crate::alloc::reset();
    let _ = crate::alloc::c_take();
    choice::begin(seed, fixed);
    *NOW.lock().unwrap() = Some((seed, Instant::now(), cpu()));
    let cfg = if p.threads { sched::Config::draw() } else { sched::Config::plain() };
    sched::enter(cfg, on_fatal);
    let result = match panics::catch(|| (p.run)()) {
        Ok(r) => r,
        Err(m) => Err(V { kind: "panic".into(), detail: format!("panicked: {}", m) }),
    };
    let (stats, states) = sched::leave();
    *NOW.lock().unwrap() = None;
    let trace = choice::trace();
    let _ = crate::alloc::c_take();
    crate::alloc::reset();
    let mut notes = note::take();
    notes.print ^= stats.history;
    if stats.spurious != 0 {
        *notes.faults.entry("spurious wakeup".into()).or_insert(0) += stats.spurious;
    }
    if stats.clock_jumps != 0 {
        *notes.faults.entry("clock jump".into()).or_insert(0) += stats.clock_jumps;
    }
    if stats.starved_steps != 0 {
        *notes.faults.entry("stalled thread (steps held back)".into()).or_insert(0) += stats.starved_steps;
    }
    if stats.preemptions != 0 {
        *notes.faults.entry("preemption".into()).or_insert(0) += stats.preemptions;
    }
    Run { violation: result.err(), trace, notes, stats, states }
}

// ---- what a worker accumulates ----

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub nontrivial: u64,
    pub prints: HashSet<u64>,
    pub states: HashSet<u64>,
    pub histories: HashSet<u64>,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub waits: u64,
    pub lost_notifies: u64,
    pub spawned: u64,
    pub sim_nanos: u64,
    pub repeated: u64,
    pub samples: Vec<String>,
}
static TOTALS: Mutex<Option<Totals>> = Mutex::new(None);
/// seed, start and CPU time at the start of the run in progress
static NOW: Mutex<Option<(u64, Instant, Duration)>> = Mutex::new(None);
/// property and file, when replaying for somebody to read
static LOUD: Mutex<Option<(String, String)>> = Mutex::new(None);
static JOB: Mutex<Option<Job>> = Mutex::new(None);
#[derive(Clone)]
struct Job {
    prop: String,
    out: String,
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {},
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn absorb(t: &mut Totals, r: &Run) {
    t.runs += 1;
    if r.notes.nontrivial {
        t.nontrivial += 1;
        t.prints.insert(r.notes.print);
    }
    t.states.extend(r.states.iter());
    if r.stats.spawned != 0 {
        t.histories.insert(r.stats.history);
    }
    for (k, v) in &r.notes.probes {
        *t.probes.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &r.notes.faults {
        *t.faults.entry(k.clone()).or_insert(0) += v;
    }
    t.steps += r.stats.steps;
    t.switches += r.stats.switches;
    t.preemptions += r.stats.preemptions;
    t.waits += r.stats.waits;
    t.lost_notifies += r.stats.lost_notifies;
    t.spawned += r.stats.spawned;
    t.sim_nanos += r.stats.sim_nanos;
    if t.samples.len() < 3 && r.notes.nontrivial {
        t.samples.push(r.notes.desc.clone());
    }
}

fn write_result(out: &str, t: &Totals, bad: Option<(&str, u64, &V, &Trace, u64, &str)>) {
    let mut s = String::new();
    let _ = writeln!(s, "runs\t{}\nnontrivial\t{}\nsteps\t{}\nswitches\t{}\npreemptions\t{}\nwaits\t{}\nlost_notifies\t{}\nspawned\t{}\nsim_nanos\t{}\nrepeated\t{}",
        t.runs, t.nontrivial, t.steps, t.switches, t.preemptions, t.waits, t.lost_notifies, t.spawned, t.sim_nanos, t.repeated);
    for (name, set) in [("print", &t.prints), ("state", &t.states), ("history", &t.histories)] {
        // bound what is handed over; the count is exact within a worker
        let _ = write!(s, "{}s\t", name);
        for x in set.iter().take(400_000) {
            let _ = write!(s, "{:x} ", x);
        }
        s.push('\n');
    }
    for (k, v) in &t.probes {
        let _ = writeln!(s, "probe\t{}\t{}", esc(k), v);
    }
    for (k, v) in &t.faults {
        let _ = writeln!(s, "fault\t{}\t{}", esc(k), v);
    }
    for (k, v) in &t.known {
        let _ = writeln!(s, "known\t{}\t{}", esc(k), v);
    }
    for k in &t.samples {
        let _ = writeln!(s, "sample\t{}", esc(k));
    }
    if let Some((prop, seed, bad, trace, history, desc)) = bad {
        let _ = writeln!(s, "violation\t{}", esc(&replay_text(prop, seed, bad, trace, history, desc)));
    }
    s.push_str("end\n");
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).expect("cannot write results");
    std::fs::rename(&tmp, out).expect("cannot write results");
}

pub fn replay_text(prop: &str, seed: u64, bad: &V, trace: &Trace, history: u64, desc: &str) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "divsim-replay 1\nproperty {}\nkind {}\nseed {}\nhistory {:x}\ndetail {}\nscenario {}", prop, bad.kind, seed, history, esc(&bad.detail), esc(desc));
    for (i, name) in STREAM_NAMES.iter().enumerate() {
        let _ = write!(s, "{}", name);
        for x in &trace[i] {
            let _ = write!(s, " {}", x);
        }
        s.push('\n');
    }
    s
}
#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub history: u64,
    pub detail: String,
    pub desc: String,
    pub trace: Trace,
}
pub fn parse_replay(text: &str) -> Option<Replay> {
    let mut r = Replay::default();
    let mut lines = text.lines();
    if lines.next()? != "divsim-replay 1" {
        return None;
    }
    for l in lines {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.prop = v.into(),
            "kind" => r.kind = v.into(),
            "seed" => r.seed = v.parse().ok()?,
            "history" => r.history = u64::from_str_radix(v, 16).ok()?,
            "detail" => r.detail = unesc(v),
            "scenario" => r.desc = unesc(v),
            _ => if let Some(i) = STREAM_NAMES.iter().position(|n| *n == k) {
                r.trace[i] = v.split_ascii_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
            },
        }
    }
    Some(r)
}

/// The simulator cannot go on: a deadlock, or no progress.
fn on_fatal(kind: &str, detail: String) -> ! {
    finish_with(V { kind: kind.to_string(), detail })
}
fn finish_with(bad: V) -> ! {
    let trace = choice::trace();
    let notes = note::snapshot();
    let job = JOB.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let seed = NOW.lock().unwrap_or_else(|e| e.into_inner()).map_or(0, |n| n.0);
    if let Some(job) = job {
        let mut g = TOTALS.lock().unwrap_or_else(|e| e.into_inner());
        let mut t = g.take().unwrap_or_default();
        t.runs += 1;
        for (k, v) in &notes.faults {
            *t.faults.entry(k.clone()).or_insert(0) += v;
        }
        write_result(&job.out, &t, Some((&job.prop, seed, &bad, &trace, 0, &notes.desc)));
    }
    eprintln!("{}: {}", bad.kind, bad.detail);
    if let Some((prop, path)) = LOUD.lock().unwrap_or_else(|e| e.into_inner()).clone() {
        println!("scenario: {}", notes.desc);
        println!("{}: {}", bad.kind, bad.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        hard_exit(1);
    }
    hard_exit(3)
}
extern "C" {
    fn _exit(code: i32) -> !;
}
pub fn hard_exit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
/// Called by the panic hook when a panic cannot be caught (it crosses a C frame).
pub fn on_abort(msg: String) {
    if JOB.lock().unwrap_or_else(|e| e.into_inner()).is_some() {
        finish_with(V { kind: "panic".into(), detail: format!("a panic left a C function (abort): {}", msg) });
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu() -> Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t) };
    Duration::new(t.sec as u64, t.nsec as u32)
}
/// Ends the process when one run burns this much processor time.
fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = *NOW.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((_, start, used)) = now {
            if cpu().saturating_sub(used) > limit || start.elapsed() > limit * 20 {
                finish_with(V { kind: "hang".into(), detail: format!("one call sequence used more than {:?} of processor time", limit) });
            }
        }
    });
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map_or(default, |s| s.parse().expect("number"))
}

pub fn known_list() -> Vec<(String, String, String)> {
    // property, kind, and a piece of the detail
    let path = std::env::var("DIVSIM_KNOWN").unwrap_or_else(|_| format!("{}/../known_findings.txt", env!("CARGO_MANIFEST_DIR")));
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, " | ");
            if let (Some(p), Some(k), Some(d)) = (it.next(), it.next(), it.next()) {
                v.push((p.trim().to_string(), k.trim().to_string(), d.trim().to_string()));
            }
        }
    }
    v
}
pub fn known_match(list: &[(String, String, String)], prop: &str, kind: &str, detail: &str) -> Option<String> {
    list.iter().find(|(p, k, d)| p == prop && k == kind && detail.contains(d.as_str())).map(|(_, k, d)| format!("{}: {}", k, d))
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: i32, l: *const Rlimit) -> i32;
}
/// Nothing the library is asked for here needs this much.
fn bound_memory() {
    let l = Rlimit { cur: 6 << 30, max: 6 << 30 };
    unsafe { setrlimit(9, &l) };
}

pub fn worker(args: &[String]) -> i32 {
    panics::install();
    bound_memory();
    let prop = arg(args, "--prop").expect("--prop");
    let p = props::find(prop).expect("no such property");
    let base = num(args, "--base", 1);
    let (from, stride, to) = (num(args, "--from", 0), num(args, "--stride", 1), num(args, "--to", 1));
    let secs = num(args, "--secs", 60);
    let out = arg(args, "--out").expect("--out").to_string();
    *JOB.lock().unwrap() = Some(Job { prop: prop.to_string(), out: out.clone() });
    *TOTALS.lock().unwrap() = Some(Totals::default());
    watchdog(Duration::from_secs(num(args, "--cpu", 20)));
    let known = known_list();
    let start = Instant::now();
    let mark = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.at", out)).expect("mark");
    use std::os::unix::fs::FileExt;
    let mut i = from;
    let mut bad = None;
    while i < to && start.elapsed().as_secs() < secs {
        let _ = mark.write_at(&i.to_le_bytes(), 0);
        let seed = run_seed(base, prop, i);
        let r = once(p, seed, None);
        let mut violation = r.violation.clone();
        // determinism: the same seed again must be the same run
        if violation.is_none() && i % 64 < 2 {
            let again = once(p, seed, None);
            let mut g = TOTALS.lock().unwrap();
            g.as_mut().unwrap().repeated += 1;
            if again.notes.print != r.notes.print || again.trace != r.trace || again.violation.is_some() {
                violation = Some(V { kind: "differs-on-repeat".into(), detail: format!("the same seed gave two different runs{}", again.violation.map_or(String::new(), |v| format!(" ({}: {})", v.kind, v.detail))) });
            }
        }
        let mut g = TOTALS.lock().unwrap();
        let t = g.as_mut().unwrap();
        absorb(t, &r);
        if let Some(b) = violation {
            if let Some(k) = known_match(&known, prop, &b.kind, &b.detail) {
                *t.known.entry(k).or_insert(0) += 1;
            } else {
                bad = Some((seed, b, r));
                break;
            }
        }
        drop(g);
        i += stride;
    }
    let _ = mark.write_at(&u64::MAX.to_le_bytes(), 0);
    let g = TOTALS.lock().unwrap();
    let t = g.as_ref().unwrap();
    match bad {
        None => {
            write_result(&out, t, None);
            0
        },
        Some((seed, b, r)) => {
            write_result(&out, t, Some((prop, seed, &b, &r.trace, r.notes.print, &r.notes.desc)));
            3
        },
    }
}

/// Replays a file; exit 1 if the violation shows again. With `--out`, leaves
/// the resulting record there (used while minimising).
pub fn replay_cmd(args: &[String]) -> i32 {
    panics::install();
    bound_memory();
    let path = args.first().expect("replay FILE");
    let r = parse_replay(&std::fs::read_to_string(path).expect("cannot read the replay file")).expect("not a replay file");
    let p = props::find(&r.prop).expect("no such property");
    let out = arg(args, "--out").map_or(format!("{}.result", path), |s| s.to_string());
    *JOB.lock().unwrap() = Some(Job { prop: r.prop.clone(), out: out.clone() });
    *TOTALS.lock().unwrap() = Some(Totals::default());
    watchdog(Duration::from_secs(num(args, "--cpu", 20)));
    let quiet = arg(args, "--out").is_some();
    if !quiet {
        *LOUD.lock().unwrap() = Some((r.prop.clone(), path.clone()));
    }
    let run = once(p, r.seed, Some(r.trace.clone()));
    if let Some(b) = &run.violation {
        if quiet {
            write_result(&out, &Totals::default(), Some((&r.prop, r.seed, b, &run.trace, run.notes.print, &run.notes.desc)));
        } else {
            println!("scenario: {}", run.notes.desc);
            println!("{}: {}", b.kind, b.detail);
            println!("VIOLATION property={} replay={}", r.prop, path);
        }
        return 1;
    }
    if quiet {
        write_result(&out, &Totals::default(), None);
    } else {
        println!("not reproduced");
    }
    0
}

/// Runs one index of a property and says what happened.
pub fn seed_cmd(args: &[String]) -> i32 {
    panics::install();
    let prop = args.first().expect("PROP");
    let n: u64 = args.get(1).expect("INDEX").parse().expect("number");
    let base = num(args, "--base", 1);
    let p = props::find(prop).expect("no such property");
    *JOB.lock().unwrap() = Some(Job { prop: prop.clone(), out: "/tmp/divsim.seed.out".into() });
    *TOTALS.lock().unwrap() = Some(Totals::default());
    watchdog(Duration::from_secs(20));
    let start = Instant::now();
    let r = once(p, run_seed(base, prop, n), None);
    println!("{:?} {}", start.elapsed(), r.notes.desc);
    println!("{:?}\nfaults {:?}\nprobes {:?}", r.stats, r.notes.faults, r.notes.probes);
    println!("choices {:?}", r.trace.iter().map(|t| t.len()).collect::<Vec<_>>());
    match r.violation {
        Some(b) => {
            println!("VIOLATED {}: {}", b.kind, b.detail);
            1
        },
        None => 0,
    }
}

/// Prints one line per run, for comparing processes with each other.
pub fn twice_cmd(args: &[String]) -> i32 {
    panics::install();
    let prop = args.first().expect("PROP");
    let n: u64 = args.get(1).expect("COUNT").parse().expect("number");
    let base = num(args, "--base", 1);
    let out = arg(args, "--out").expect("--out");
    let p = props::find(prop).expect("no such property");
    let mut s = String::new();
    for i in 0..n {
        let r = once(p, run_seed(base, prop, i), None);
        let lens: Vec<u64> = (0..STREAMS).map(|k| crate::drive::hash(format!("{:?}", r.trace[k]).as_bytes())).collect();
        let _ = writeln!(s, "{} {:x} {:x} {:?} {:?}", i, r.notes.print, r.stats.history, lens, r.violation);
    }
    std::fs::write(out, s).expect("write");
    0
}
