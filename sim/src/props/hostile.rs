//! Streams an adversary could make: the compressor itself makes them, with
//! some of the nibbles it codes replaced on their way into the stream. The
//! compressor carries on as if it had been given those, so that what follows
//! is still well coded, and the decoder is led to where damaged bytes hardly
//! ever take it.
use super::*;
use divans::Command;
use crate::entry::R;
use std::cell::RefCell;

enum Where {
    /// each nibble, once in so many times
    Sprinkled(u64),
    /// after the given number of nibbles of a value, so many nibbles, or so many of those
    Value { value: u8, left: u64, run: u64, every: bool },
    /// after the given number of nibbles that stand for something of a kind, so many of those
    Kind { kind: u64, left: u64, run: u64 },
    /// from a place on, so many nibbles
    Place { skip: u64, run: u64 },
}
enum By {
    Anything,
    Constant(u8),
    /// something near
    Step,
    /// one bit
    Bit,
}
struct Recoder {
    at: Where,
    by: By,
    rng: choice::Rng,
    done: u64,
}
const KINDS: u64 = 11;
const COARSE: u64 = 3;
thread_local!(static RECODER: RefCell<Option<Recoder>> = RefCell::new(None));

/// Whether a nibble stands for something of the kind: one of KINDS for the
/// step of a command, one of COARSE for the command.
fn is_kind(what: &dyn std::fmt::Debug, kind: u64) -> bool {
    let s = format!("{:?}", what);
    let coarse = kind >= KINDS;
    let end = s.match_indices('(').nth(if coarse { 0 } else { 1 }).map_or(s.len(), |(i, _)| i);
    let h = s.as_bytes()[..end].iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)) / 64;
    if coarse { h % COARSE + KINDS == kind } else { h % KINDS == kind }
}
fn recode(n: u8, what: &dyn std::fmt::Debug) -> u8 {
    RECODER.with(|r| {
        let mut r = r.borrow_mut();
        let r = match *r {
            Some(ref mut r) => r,
            None => return n,
        };
        let now = match r.at {
            Where::Sprinkled(k) => r.rng.below(k) == 0,
            Where::Value { value, ref mut left, ref mut run, every } => if *left != 0 {
                if n == value {
                    *left -= 1;
                }
                *left == 0
            } else if *run != 0 && (!every || n == value) {
                *run -= 1;
                true
            } else {
                false
            },
            Where::Kind { kind: k, ref mut left, ref mut run } => if !is_kind(what, k) {
                false
            } else if *left != 0 {
                *left -= 1;
                false
            } else if *run != 0 {
                *run -= 1;
                true
            } else {
                false
            },
            Where::Place { ref mut skip, ref mut run } => if *skip != 0 {
                *skip -= 1;
                false
            } else if *run != 0 {
                *run -= 1;
                true
            } else {
                false
            },
        };
        // what is left of a length already coded otherwise need not fit a nibble
        let n = n & 15;
        let b = if !now { n } else {
            r.done += 1;
            match r.by {
                By::Anything => r.rng.next() as u8 & 15,
                By::Constant(b) => b,
                By::Step => n.wrapping_add([1, 15, 2, 14][r.rng.below(4) as usize]) & 15,
                By::Bit => n ^ 1 << r.rng.below(4),
            }
        };
        // the compressor itself carries out what it codes: no copies of gigabytes
        if format!("{:?}", what).starts_with("CopyCommand(CountLengthGreater") { b.min(2) } else { b }
    })
}

/// Makes some of the commands such as no compressor would give.
fn spoil(cmds: &mut Vec<entry::Cmd>, r: &mut choice::Rng, ring: u32) {
    let often = [1, 3, 10, 40][r.below(4) as usize];
    let near = r.below(3) == 0;
    for c in cmds.iter_mut() {
        if near {
            if let Command::Copy(ref mut c) = *c {
                c.distance = c.distance.min(1 + r.below(4) as u32);
            }
        }
        if r.below(often) != 0 {
            continue;
        }
        match *c {
            Command::Copy(ref mut c) => match r.below(8) {
                0 => c.distance = 0,
                4 => c.distance = ring.wrapping_add(r.below(3) as u32).wrapping_sub(1),
                5 => c.num_bytes = 0,
                6 => c.num_bytes = ring + r.below(3) as u32,
                _ => c.distance = r.next() as u32 >> r.below(32),
            },
            Command::Dict(ref mut d) => match r.below(4) {
                0 => d.word_size = r.below(40) as u8,
                1 => d.word_id = r.next() as u32 >> r.below(32),
                2 => d.transform = [121, 122, 127, 128, 255][r.below(5) as usize],
                _ => d.final_size = r.next() as u8,
            },
            Command::PredictionMode(ref mut p) => {
                if r.below(2) == 0 {
                    let n = [0, 1, 16383, 16384, 16385, 20000][r.below(6) as usize];
                    p.literal_context_map.0.resize(n, r.next() as u8);
                } else {
                    let m = &mut p.predmode_speed_and_distance_context_map.0;
                    let n = m.len() as u64;
                    match r.below(3) {
                        0 => m[r.below(n.min(4)) as usize] = r.next() as u8,
                        1 => m[r.below(n) as usize] = r.next() as u8,
                        _ => m.resize((n + r.below(1100)) as usize, 0),
                    }
                }
            },
            _ => {},
        }
    }
    note::fault("commands spoiled");
}

/// None when the compressor could not go along with it.
pub fn stream() -> Res<Option<Vec<u8>>> {
    let mut rng = choice::Rng::new(choice::pick(F, 1 << 40));
    let by = match choice::weighted(F, &[2, 2, 1, 1, 1]) {
        0 => By::Anything,
        1 => By::Constant(15),
        2 => By::Constant(rng.below(16) as u8),
        3 => By::Step,
        _ => By::Bit,
    };
    let few = match rng.below(3) {
        0 => 0,
        1 => rng.below(4),
        _ => rng.below(60),
    };
    let run = match rng.below(4) {
        0 => 1,
        1 => 1 + rng.below(4),
        2 => 1 + rng.below(40),
        _ => 1 + rng.below(2000),
    };
    let at = match choice::weighted(F, &[3, 3, 2, 1, 6]) {
        0 => Where::Sprinkled([5, 30, 200, 1500][rng.below(4) as usize]),
        1 => Where::Value {
            value: if rng.below(2) == 0 { 12 + rng.below(4) } else { rng.below(16) } as u8,
            left: 1 + few, run: run - 1, every: rng.below(2) == 0,
        },
        2 => Where::Place { skip: choice::size(F, 0, 2_000), run },
        3 => Where::Sprinkled(u64::MAX),
        _ => Where::Kind { kind: rng.below(KINDS + COARSE), left: few, run },
    };
    let internal = choice::chance(P, 2, 3);
    let mut opts = Opts::draw(true);
    RECODER.with(|r| *r.borrow_mut() = Some(Recoder { at, by, rng, done: 0 }));
    let made = if internal {
        opts.internal = true;
        let window = choice::pick_of(P, &[10u32, 10, 11, 16, 22]);
        opts.window = Some(window as i32);
        let (mut cmds, _) = commands::sequence(window, 60);
        if cmds.is_empty() {
            return Ok(None);
        }
        if choice::chance(F, 1, 2) {
            spoil(&mut cmds, &mut choice::Rng::new(choice::pick(F, 1 << 40)), 1 << window);
        }
        with(&mut *entry::cmd_enc(&opts, 1000), &mut |e, out| {
            let mut done = 0;
            while done < cmds.len() {
                if !step(&mut |o, oo| e.commands(&cmds, &mut done, o, oo), out) {
                    break;
                }
            }
        }, &mut |e, out| while step(&mut |o, oo| e.flush(o, oo), out) {})
    } else {
        let data = gen::data(3_000);
        with(&mut *entry::enc(Front::Rust, &opts, 1000, alloc::NO_ALLOC), &mut |e, out| {
            let mut at = 0;
            while at < data.len() {
                if !step(&mut |o, oo| e.encode(&data, &mut at, o, oo), out) {
                    break;
                }
            }
        }, &mut |e, out| while step(&mut |o, oo| e.flush(o, oo), out) {})
    };
    let done = RECODER.with(|r| r.borrow_mut().take()).map_or(0, |r| r.done);
    alloc::reset();
    match made {
        Some(mut b) if b.len() > 16 => {
            note::fault("nibbles replaced");
            note::probe(if done == 0 { "tampered with: nothing" } else { "tampered with: well coded" });
            if choice::chance(F, 1, 5) {
                b[5] = choice::pick_of(F, &[10, 10, 10, 11, 12, 16, 24, 10 + choice::pick(F, 15) as u8]);
                note::fault("window size overwritten");
            }
            Ok(Some(b))
        },
        _ => {
            note::probe("tampered with: the compressor gave up");
            Ok(None)
        },
    }
}
/// What the compressor can be brought to hand out. One that fails or panics
/// half way is still asked for what it has got.
fn with<E: ?Sized>(e: &mut E, give: &mut dyn FnMut(&mut E, &mut Vec<u8>), flush: &mut dyn FnMut(&mut E, &mut Vec<u8>)) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    divans::std::sim::set_recode(Some(recode));
    if crate::panics::catch(|| give(e, &mut out)).is_err() {
        note::probe("tampered with: the compressor panicked");
    }
    let ok = crate::panics::catch(|| flush(e, &mut out)).is_ok();
    divans::std::sim::set_recode(None);
    if ok { Some(out) } else { None }
}
/// False when there is no point in going on.
fn step(call: &mut dyn FnMut(&mut [u8], &mut usize) -> R, out: &mut Vec<u8>) -> bool {
    let mut buf = vec![0u8; 1 << 16];
    let mut n = 0;
    let r = call(&mut buf, &mut n);
    out.extend_from_slice(&buf[..n]);
    match r {
        R::NeedOut | R::NeedIn => out.len() < 1 << 20,
        R::Success => false,
        _ => false,
    }
}
/// A stream like that in the place of `b`, or damage to it.
pub fn or_damage(b: &mut Vec<u8>) -> Res<()> {
    if choice::chance(F, 1, 3) {
        if let Some(h) = stream()? {
            *b = h;
            return Ok(());
        }
    }
    damage(b);
    Ok(())
}
