//! `divsim check`: spreads runs over worker processes, minimises what they
//! find, writes the replay file and the evidence.

use crate::choice::{Trace, STREAMS};
use crate::props::{self, Prop};
use crate::run::{self, known_list, known_match, parse_replay, replay_text, unesc, Replay};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;

#[derive(Default)]
struct Sum {
    n: BTreeMap<String, u64>,
    prints: HashSet<u64>,
    states: HashSet<u64>,
    histories: HashSet<u64>,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Replay>,
}

fn absorb(s: &mut Sum, text: &str) -> bool {
    let mut complete = false;
    let mut bad = None;
    for l in text.lines() {
        let mut f = l.split('\t');
        let k = f.next().unwrap_or("");
        match k {
            "prints" | "states" | "historys" => {
                let set = match k {
                    "prints" => &mut s.prints,
                    "states" => &mut s.states,
                    _ => &mut s.histories,
                };
                for x in f.next().unwrap_or("").split_ascii_whitespace() {
                    set.insert(u64::from_str_radix(x, 16).unwrap_or(0));
                }
            },
            "probe" | "fault" | "known" => {
                let name = unesc(f.next().unwrap_or(""));
                let v: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let m = match k {
                    "probe" => &mut s.probes,
                    "fault" => &mut s.faults,
                    _ => &mut s.known,
                };
                *m.entry(name).or_insert(0) += v;
            },
            "sample" => s.samples.push(unesc(f.next().unwrap_or(""))),
            "violation" => bad = parse_replay(&unesc(f.next().unwrap_or(""))),
            "end" => complete = true,
            _ => if let Some(v) = f.next() {
                *s.n.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            },
        }
    }
    if let Some(b) = bad {
        s.violations.push(b);
    }
    complete
}

struct Slot {
    next: u64,
    child: Option<Child>,
    out: PathBuf,
    deaths: u64,
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

fn start(p: &Prop, base: u64, slot: &mut Slot, to: u64, secs: u64, log: &Path) {
    let _ = std::fs::remove_file(&slot.out);
    let _ = std::fs::remove_file(format!("{}.at", slot.out.display()));
    let err = std::fs::OpenOptions::new().create(true).append(true).open(log).expect("log");
    slot.child = Some(Command::new(exe())
        .args(["worker", "--prop", p.id, "--base", &base.to_string(), "--from", &slot.next.to_string(), "--stride", &WORKERS.to_string(),
            "--to", &to.to_string(), "--secs", &secs.to_string(), "--out"])
        .arg(&slot.out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .expect("cannot start a worker"));
}

fn at(out: &Path) -> Option<u64> {
    let b = std::fs::read(format!("{}.at", out.display())).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

/// Replays in a child; the violation that shows, if any.
fn try_replay(r: &Replay, dir: &Path, cpu: u64, tag: u64) -> Option<Replay> {
    let file = dir.join(format!("try{}.replay", tag));
    let out = dir.join(format!("try{}.out", tag));
    let _ = std::fs::remove_file(&out);
    let bad = crate::drive::V { kind: r.kind.clone(), detail: r.detail.clone() };
    std::fs::write(&file, replay_text(&r.prop, r.seed, &bad, &r.trace, r.history, &r.desc)).ok()?;
    let mut child = Command::new(exe()).arg("replay").arg(&file).arg("--cpu").arg(cpu.to_string()).arg("--out").arg(&out)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let begun = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if begun.elapsed() > Duration::from_secs(cpu * 3 + 20) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            },
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(_) => break None,
        }
    };
    let mut s = Sum::default();
    if let Ok(text) = std::fs::read_to_string(&out) {
        absorb(&mut s, &text);
    }
    if let Some(v) = s.violations.pop() {
        return Some(v);
    }
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = status.and_then(|s| s.signal()) {
        let mut v = r.clone();
        v.kind = "crash".into();
        v.detail = format!("the process was ended by signal {}", sig);
        return Some(v);
    }
    None
}

fn size(t: &Trace) -> usize {
    t.iter().map(|s| s.len()).sum::<usize>() + t.iter().flatten().filter(|x| **x != 0).count() * 3
}

/// Smaller traces that still show the same kind of violation.
fn minimise(first: Replay, dir: &Path, budget: Duration, cpu: u64) -> Replay {
    let begun = Instant::now();
    let known = known_list();
    let mut best = first;
    let mut tries = 0u64;
    let attempt = |best: &mut Replay, cands: Vec<Trace>, tries: &mut u64| -> Option<usize> {
        // candidates are tried in parallel batches; the first that works wins
        for (b, batch) in cands.chunks(WORKERS as usize).enumerate() {
            if begun.elapsed() > budget {
                return None;
            }
            let found: Vec<Option<Replay>> = std::thread::scope(|sc| {
                let hs: Vec<_> = batch.iter().enumerate().map(|(i, t)| {
                    let mut c = best.clone();
                    c.trace = t.clone();
                    sc.spawn(move || try_replay(&c, dir, cpu, i as u64).map(|mut v| {
                        // what the run consumed of the trace is all that counts
                        if v.kind == "crash" { v.trace = c.trace.clone(); }
                        v
                    }))
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            *tries += batch.len() as u64;
            for (i, f) in found.into_iter().enumerate() {
                if let Some(v) = f {
                    // shortening must not slide from a new violation to one that is listed
                    if v.kind == best.kind && known_match(&known, &v.prop, &v.kind, &v.detail).is_none() {
                        let mut t = v.trace.clone();
                        for s in t.iter_mut() {
                            while s.last() == Some(&0) {
                                s.pop();
                            }
                        }
                        if size(&t) < size(&best.trace) {
                            let seed = best.seed;
                            *best = v;
                            best.seed = seed;
                            best.trace = t;
                            return Some(b * WORKERS as usize + i);
                        }
                    }
                }
            }
        }
        None
    };
    loop {
        let before = size(&best.trace);
        // cut tails
        for s in (0..STREAMS).rev() {
            loop {
                let n = best.trace[s].len();
                let mut cands = Vec::new();
                for keep in [0, n / 8, n / 4, n / 2, n * 3 / 4, n * 7 / 8, n.saturating_sub(4), n.saturating_sub(1)] {
                    if keep < n {
                        let mut t = best.trace.clone();
                        t[s].truncate(keep);
                        cands.push(t);
                    }
                }
                if attempt(&mut best, cands, &mut tries).is_none() {
                    break;
                }
            }
        }
        // blank blocks, then remove blocks
        for s in (0..STREAMS).rev() {
            let mut block = (best.trace[s].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.trace[s].len() && begun.elapsed() < budget {
                    let mut cands = Vec::new();
                    let mut j = i;
                    while j < best.trace[s].len() && cands.len() < WORKERS as usize {
                        let end = (j + block).min(best.trace[s].len());
                        if best.trace[s][j..end].iter().any(|x| *x != 0) {
                            let mut t = best.trace.clone();
                            for x in t[s][j..end].iter_mut() {
                                *x = 0;
                            }
                            cands.push(t);
                        }
                        if s != 0 {
                            let mut t = best.trace.clone();
                            t[s].drain(j..end);
                            cands.push(t);
                        }
                        j = end;
                    }
                    if attempt(&mut best, cands, &mut tries).is_none() {
                        i = j;
                    }
                }
                if block == 1 || best.trace[s].len() > 4000 && block <= best.trace[s].len() / 256 {
                    break;
                }
                block = (block / 2).max(1);
            }
        }
        // smaller values
        for s in 0..STREAMS {
            for i in 0..best.trace[s].len().min(200) {
                loop {
                    let x = match best.trace[s].get(i) {
                        Some(x) if *x > 1 => *x,
                        _ => break,
                    };
                    let mut cands = Vec::new();
                    for y in [1, x / 16, x / 4, x / 2, x - 1] {
                        if y < x {
                            let mut t = best.trace.clone();
                            t[s][i] = y;
                            cands.push(t);
                        }
                    }
                    // a smaller value does not change `size`; judge by value
                    let mut done = true;
                    for t in cands {
                        if begun.elapsed() > budget {
                            break;
                        }
                        let mut c = best.clone();
                        c.trace = t.clone();
                        tries += 1;
                        if let Some(v) = try_replay(&c, dir, cpu, 0) {
                            if v.kind == best.kind {
                                let mut t2 = if v.kind == "crash" { t } else { v.trace.clone() };
                                for s in t2.iter_mut() {
                                    while s.last() == Some(&0) {
                                        s.pop();
                                    }
                                }
                                if size(&t2) <= size(&best.trace) {
                                    let seed = best.seed;
                                    best = v;
                                    best.seed = seed;
                                    best.trace = t2;
                                    done = false;
                                    break;
                                }
                            }
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        if size(&best.trace) >= before || begun.elapsed() > budget {
            break;
        }
    }
    println!("minimised to {} choices ({} not plain) in {} replays", best.trace.iter().map(|s| s.len()).sum::<usize>(),
        best.trace.iter().flatten().filter(|x| **x != 0).count(), tries);
    best
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map(m: &BTreeMap<String, u64>) -> String {
    let parts: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    format!("{{{}}}", parts.join(", "))
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

pub fn check(args: &[String]) -> i32 {
    let id = arg(args, "--prop").expect("--prop");
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        },
    };
    let tier = arg(args, "--tier").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let base: u64 = arg(args, "--seed").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let to: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs: u64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
    let root = PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("..");
    let verif = std::env::var("DIVSIM_HOME").map(PathBuf::from).unwrap_or(root.canonicalize().unwrap_or(root));
    let dir = verif.join("sim/target/work").join(format!("{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("work directory");
    let log = dir.join("stderr.log");
    let begun = Instant::now();
    let known = known_list();
    let mut sum = Sum::default();
    let mut slots: Vec<Slot> = (0..WORKERS).map(|i| Slot { next: i, child: None, out: dir.join(format!("w{}", i)), deaths: 0 }).collect();
    for s in slots.iter_mut() {
        if s.next < to {
            start(p, base, s, to, secs, &log);
        }
    }
    let mut failures: Vec<Replay> = Vec::new();
    let mut machinery: Option<String> = None;
    loop {
        let mut alive = false;
        for s in slots.iter_mut() {
            let status = match s.child.as_mut().map(|c| c.try_wait()) {
                None => continue,
                Some(Ok(None)) => {
                    alive = true;
                    continue;
                },
                Some(Ok(Some(st))) => st,
                Some(Err(e)) => {
                    machinery = Some(format!("lost a worker: {}", e));
                    s.child = None;
                    continue;
                },
            };
            s.child = None;
            let here = at(&s.out);
            let complete = match std::fs::read_to_string(&s.out) {
                Ok(text) => absorb(&mut sum, &text),
                Err(_) => false,
            };
            if complete && status.success() {
                continue;
            }
            let here = match here {
                Some(h) if h != u64::MAX || complete => h,
                _ => {
                    machinery = Some(format!("a worker ended with {} without a result", status));
                    continue;
                },
            };
            if complete {
                // a violation; the index is where the worker stood, or unknown after a clean exit
                let v = sum.violations.pop().expect("violation record");
                match known_match(&known, id, &v.kind, &v.detail) {
                    Some(k) => {
                        *sum.known.entry(k).or_insert(0) += 1;
                        if here != u64::MAX {
                            s.next = here + WORKERS;
                        } else {
                            s.next = to;
                        }
                    },
                    None => {
                        failures.push(v);
                        continue;
                    },
                }
            } else {
                // died without a word: run that index alone to learn its choices
                let seed = run::run_seed(base, id, here);
                let r = crashed(p, seed, here, base, &dir, &format!("{}", status));
                match r {
                    Some(v) => match known_match(&known, id, &v.kind, &v.detail) {
                        Some(k) => {
                            *sum.known.entry(k).or_insert(0) += 1;
                            s.next = here + WORKERS;
                        },
                        None => {
                            failures.push(v);
                            continue;
                        },
                    },
                    None => {
                        machinery = Some(format!("a worker ended with {} at run {} and that run alone does not", status, here));
                        continue;
                    },
                }
            }
            s.deaths += 1;
            let spent = begun.elapsed().as_secs();
            if s.next < to && spent < secs {
                start(p, base, s, to, secs - spent, &log);
                alive = true;
            }
        }
        if !failures.is_empty() || machinery.is_some() || !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for s in slots.iter_mut() {
        if let Some(c) = s.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
            if let Ok(text) = std::fs::read_to_string(&s.out) {
                let n = sum.violations.len();
                absorb(&mut sum, &text);
                sum.violations.truncate(n);
            }
        }
    }
    let searched = begun.elapsed();
    let mut code = 0;
    let mut report = String::new();
    if let Some(first) = failures.into_iter().next() {
        println!("found after {:?}: {}: {}", searched, first.kind, first.detail);
        let budget = Duration::from_secs(arg(args, "--minimise").and_then(|s| s.parse().ok()).unwrap_or(30));
        let kind = first.kind.clone();
        let reproduced = try_replay(&first, &dir, 20, 99);
        let best = match reproduced {
            Some(ref r) if r.kind == kind => minimise(first.clone(), &dir, budget, if kind == "hang" { 4 } else { 20 }),
            other => {
                println!("the replay shows {:?}", other.map(|r| (r.kind, r.detail)));
                first.clone()
            },
        };
        let rdir = verif.join("replays");
        std::fs::create_dir_all(&rdir).expect("replays directory");
        let path = rdir.join(format!("{}-{:x}.replay", id, best.seed));
        let bad = crate::drive::V { kind: best.kind.clone(), detail: best.detail.clone() };
        std::fs::write(&path, replay_text(id, best.seed, &bad, &best.trace, best.history, &best.desc)).expect("replay file");
        let again = try_replay(&best, &dir, 20, 98);
        println!("scenario: {}", best.desc);
        println!("{}: {}", best.kind, best.detail);
        println!("replayed in a fresh process: {}", match again {
            Some(ref a) if a.kind == best.kind => format!("same ({})", a.detail),
            Some(ref a) => format!("{} instead: {}", a.kind, a.detail),
            None => "not reproduced".into(),
        });
        println!("replay with: {} replay {}", exe().display(), path.display());
        report = format!("VIOLATION property={} replay={}", id, path.display());
        code = 1;
    }
    let wall = begun.elapsed().as_secs_f64();
    for (p, k, d) in &known {
        if p == id {
            let name = format!("{}: {}", k, d);
            println!("KNOWN-FINDING: property={} {} ({} runs)", id, name, sum.known.get(&name).copied().unwrap_or(0));
        }
    }
    evidence(p, &tier, base, &sum, searched.as_secs_f64(), wall, code, &verif);
    let g = |k: &str| sum.n.get(k).copied().unwrap_or(0);
    println!("{} {}: {} runs, {} nontrivial, {} distinct, {} interleavings, {} scheduler states, {:.1} s", id, tier, g("runs"), g("nontrivial"), sum.prints.len(), sum.histories.len(), sum.states.len(), wall);
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        if let Some(m) = machinery {
            eprintln!("error: {}", m);
            return 2;
        }
        if g("runs") == 0 || g("nontrivial") < 2 {
            eprintln!("error: nothing was explored");
            return 2;
        }
    }
    if code == 1 {
        println!("{}", report);
    }
    code
}

/// A run that kills its process: its choices, from a child that streams them.
fn crashed(p: &Prop, seed: u64, index: u64, base: u64, dir: &Path, status: &str) -> Option<Replay> {
    let stream = dir.join("stream");
    let _ = std::fs::remove_file(&stream);
    let out = dir.join("crash.out");
    let st = Command::new(exe()).args(["worker", "--prop", p.id, "--base", &base.to_string(), "--from", &index.to_string(), "--to", &(index + 1).to_string(), "--out"])
        .arg(&out).env("DIVSIM_STREAM", &stream)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
    let mut s = Sum::default();
    if let Ok(text) = std::fs::read_to_string(&out) {
        absorb(&mut s, &text);
    }
    if let Some(v) = s.violations.pop() {
        return Some(v);
    }
    if st.success() {
        return None;
    }
    let mut r = Replay { prop: p.id.into(), kind: "crash".into(), seed, detail: format!("the process ended with {}", status), ..Replay::default() };
    let bytes = std::fs::read(&stream).unwrap_or_default();
    for rec in bytes.chunks_exact(9) {
        let v = u64::from_le_bytes(rec[1..9].try_into().unwrap());
        r.trace[(rec[0] as usize).min(STREAMS - 1)].push(v);
    }
    Some(r)
}

fn evidence(p: &Prop, tier: &str, base: u64, s: &Sum, searched: f64, wall: f64, code: i32, verif: &Path) {
    let g = |k: &str| s.n.get(k).copied().unwrap_or(0);
    let samples: Vec<String> = s.samples.iter().take(6).map(|x| json(x)).collect();
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", json(p.id), json(tier), base);
    let _ = write!(e, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", g("runs"), s.prints.len(), json(p.rule));
    let _ = write!(e, "  \"samples\": [{}],\n", samples.join(", "));
    let _ = write!(e, "  \"runs_per_hour\": {},\n", (g("runs") as f64 * 3600.0 / searched.max(0.001)) as u64);
    let _ = write!(e, "  \"runs_repeated_to_check_determinism\": {},\n", g("repeated"));
    let _ = write!(e, "  \"simulated_seconds\": {:.6},\n", g("sim_nanos") as f64 / 1e9);
    let _ = write!(e, "  \"scheduler_steps\": {},\n  \"context_switches\": {},\n  \"preemptions\": {},\n  \"condition_waits\": {},\n  \"notifies_with_no_waiter\": {},\n  \"threads_spawned\": {},\n",
        g("steps"), g("switches"), g("preemptions"), g("waits"), g("lost_notifies"), g("spawned"));
    let _ = write!(e, "  \"distinct_interleavings\": {},\n  \"distinct_scheduler_states\": {},\n", s.histories.len(), s.states.len());
    let _ = write!(e, "  \"faults_fired\": {},\n  \"probes\": {},\n  \"known_findings_seen\": {},\n", json_map(&s.faults), json_map(&s.probes), json_map(&s.known));
    let _ = write!(e, "  \"real_components\": {},\n  \"stub_components\": {}\n }},\n", json(p.real), json(p.stub));
    let _ = write!(e, " \"assumptions\": [{}],\n", p.assumes.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "));
    let _ = write!(e, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, code);
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), e).expect("evidence");
}
