//! Commands instead of data: what goes in, and what they mean.
use super::*;
use crate::entry::{Bytes, Cmd, CmdEnc, R};
use divans::{BlockSwitch, Command, CopyCommand, DictCommand, FeatureFlagSliceType, LiteralBlockSwitch, LiteralCommand, PredictionModeContextMap};

// places in the array that carries a prediction mode, from the format
const MIXING: usize = 4;
const SPEEDS: usize = MIXING + 8192;
const DISTANCES: usize = SPEEDS + 12;
const DICT_BITS: [u32; 25] = [0, 0, 0, 0, 10, 10, 11, 11, 10, 10, 10, 10, 10, 9, 9, 8, 7, 7, 8, 7, 7, 6, 6, 5, 5];

/// What a sequence of commands stands for, by the letter.
pub struct Meaning {
    pub out: Vec<u8>,
}
impl Meaning {
    pub fn add(&mut self, c: &Cmd) {
        match *c {
            Command::Literal(ref l) => self.out.extend_from_slice(&l.data.0),
            Command::Copy(ref c) => for _ in 0..c.num_bytes {
                let b = self.out[self.out.len() - c.distance as usize];
                self.out.push(b);
            },
            Command::Dict(ref d) => {
                let w = word(d);
                self.out.extend_from_slice(&w);
            },
            _ => {},
        }
    }
}
fn word(d: &DictCommand) -> Vec<u8> {
    let n = d.word_size as usize;
    let at = brotli::dictionary::kBrotliDictionaryOffsetsByLength[n] as usize + d.word_id as usize * n;
    let mut buf = [0u8; 64];
    let k = brotli::TransformDictionaryWord(&mut buf, &brotli::dictionary::kBrotliDictionary[at..at + n], n as i32, d.transform as i32);
    buf[..k as usize].to_vec()
}

pub fn literal(data: Vec<u8>, high_entropy: bool) -> Cmd {
    Command::Literal(LiteralCommand { data: Bytes(data), prob: FeatureFlagSliceType::default(), high_entropy })
}
pub fn block_of_commands(r: &mut choice::Rng) -> Cmd {
    Command::BlockSwitchCommand(BlockSwitch::new(block(r)))
}
/// A sequence every command of which is valid where it stands.
pub fn sequence(window: u32, longest: u64) -> (Vec<Cmd>, Vec<u8>) {
    sequence_of(window, longest, 60_000 + (8 << window.min(16)), 0, 0)
}
/// Up to about `limit` bytes, after `huge` to begin with, up to `noise` of them literal.
pub fn sequence_of(window: u32, longest: u64, limit: usize, huge: usize, noise: u64) -> (Vec<Cmd>, Vec<u8>) {
    let ring = 1usize << window;
    let mut m = Meaning { out: Vec::new() };
    let mut v = Vec::new();
    let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
    let n = choice::size(P, 1, longest);
    let mut recent = [4u32, 11, 15, 16];
    let alphabet = 1 + r.below(256);
    let far = r.below(2) == 0;
    let near = r.below(6) == 0;
    let plain = r.below(3) == 0;
    let wordy = r.below(5) == 0;
    if huge != 0 {
        // history to reach back to
        let data: Vec<u8> = (0..300 + r.below(noise)).map(|_| r.next() as u8).collect();
        let c = Command::Literal(LiteralCommand { data: Bytes(data), prob: FeatureFlagSliceType::default(), high_entropy: false });
        m.add(&c);
        v.push(c);
        let mut have = m.out.len();
        while have < huge {
            let reach = have.min(ring - 1) as u64;
            let distance = (reach - r.below(reach.min(200))) as u32;
            let k = 1 + r.below((huge as u64).min(1 << 23));
            have += k as usize;
            let c = Command::Copy(CopyCommand { distance, num_bytes: k as u32 });
            m.add(&c);
            v.push(c);
            // or it would all be the same
            let n = 1 + r.below(30);
            let c = Command::Literal(LiteralCommand { data: Bytes((0..n).map(|_| r.next() as u8).collect()), prob: FeatureFlagSliceType::default(), high_entropy: false });
            have += n as usize;
            m.add(&c);
            v.push(c);
        }
    }
    let limit = limit + m.out.len();
    for _ in 0..n {
        if m.out.len() > limit {
            break;
        }
        let c = match if wordy && r.below(3) != 0 { 8 } else if plain { r.below(9) } else { r.below(16) } {
            0..=3 => {
                let k = match r.below(12) {
                    0 => 1 + r.below(40),
                    1 => 1 + r.below(600),
                    2 => if r.below(6) == 0 { 1 + r.below(3 * ring.min(1 << 15) as u64) } else { 15 + r.below(3) },
                    _ => 1 + r.below(6),
                };
                let data = (0..k).map(|_| (r.below(alphabet) as u8).wrapping_mul(7)).collect();
                Command::Literal(LiteralCommand { data: Bytes(data), prob: FeatureFlagSliceType::default(), high_entropy: r.below(6) == 0 })
            },
            4..=7 => {
                let reach = m.out.len().min(ring - 1) as u64;
                if reach == 0 {
                    continue;
                }
                let d = match if near { 8 } else { r.below(8) } {
                    8 => 1 + r.below(reach.min(4)),
                    0 => 1 + r.below(reach),
                    1 => { // about as far as some window reaches
                        let d = (1i64 << r.below(if huge != 0 { 25 } else { 18 })) + [-1, 0, 0, 1][r.below(4) as usize];
                        if d < 1 || d as u64 > reach { 1 + r.below(reach.min(3)) } else { d as u64 }
                    },
                    2 | 3 => if far { reach - r.below(reach.min(80)) } else { 1 + r.below(reach.min(80)) },
                    _ => {
                        let base = recent[r.below(4) as usize] as i64 + [0, 0, 0, 1, -1, 2, -2, 3, -3][r.below(9) as usize];
                        if base < 1 || base as u64 > reach { 1 + r.below(reach.min(20)) } else { base as u64 }
                    },
                } as u32;
                if d != recent[0] {
                    recent = [d, recent[0], recent[1], recent[2]];
                }
                let k = match r.below(12) {
                    0 => r.below(3),
                    1 => 1 + r.below(2000),
                    2 => if r.below(5) == 0 { 1 + r.below(3 * ring.min(1 << 15) as u64) } else { 13 + r.below(5) },
                    _ => 1 + r.below(30),
                };
                Command::Copy(CopyCommand { distance: d, num_bytes: k as u32 })
            },
            8 | 9 => {
                let n = if r.below(2) == 0 { 4 + r.below(21) } else { 5 + r.below(2) } as u8;
                let mut d = DictCommand { word_size: n, transform: if r.below(2) == 0 { 0 } else { r.below(121) as u8 }, final_size: 0, empty: 0, word_id: r.below(1 << DICT_BITS[n as usize]) as u32 };
                let w = word(&d);
                if r.below(2) == 0 {
                    d.final_size = w.len() as u8;
                }
                Command::Dict(d)
            },
            10 => Command::BlockSwitchCommand(BlockSwitch::new(block(&mut r))),
            11 => Command::BlockSwitchDistance(BlockSwitch::new(block(&mut r))),
            12 | 13 => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(block(&mut r), r.below(9) as u8)),
            _ => {
                // two in a row are allowed
                let pm = mode(&mut r);
                note::probe("prediction mode");
                if r.below(3) == 0 {
                    v.push(Command::PredictionMode(mode(&mut r)));
                }
                Command::PredictionMode(pm)
            },
        };
        m.add(&c);
        v.push(c);
    }
    (v, m.out)
}
fn block(r: &mut choice::Rng) -> u8 {
    match r.below(3) {
        0 => r.below(4) as u8,
        1 => r.below(20) as u8,
        _ => r.next() as u8,
    }
}
fn mode(r: &mut choice::Rng) -> PredictionModeContextMap<Bytes> {
    let kinds = 1 + r.below(255);
    let lits = match r.below(4) { 0 => 0, 1 => 64, 2 => 64 * (1 + r.below(256)), _ => r.below(16385) };
    let dists = match r.below(4) { 0 => 0, 1 => 4, 2 => 4 * (1 + r.below(256)), _ => r.below(1025) };
    let run = 1 + r.below(6);
    let mut fill = |n: u64, k: u64| {
        let mut v = Vec::new();
        while (v.len() as u64) < n {
            let x = r.below(k) as u8;
            for _ in 0..1 + r.below(run * 4) {
                v.push(x);
            }
        }
        v.truncate(n as usize);
        v
    };
    let literal = fill(lits, kinds);
    let mut p = fill(DISTANCES as u64, 9);
    for x in p[MIXING..SPEEDS].iter_mut() {
        *x %= 9;
    }
    p[0] = fill(1, 4)[0];
    p[1] = fill(1, 4)[0];
    p[2] = fill(1, 2)[0];
    p[3] = 0;
    for i in 0..6 {
        let s = divans::Speed::ENCODER_DEFAULT_PALETTE[fill(1, divans::Speed::ENCODER_DEFAULT_PALETTE.len() as u64)[0] as usize];
        let f = s.to_f8_tuple();
        // low and high increments, then low and high limits, three times over
        let at = SPEEDS + i / 2 * 4 + i % 2;
        if fill(1, 4)[0] != 0 {
            p[at] = f.0;
            p[at + 2] = f.1;
        }
    }
    p.extend(fill(dists, kinds));
    PredictionModeContextMap { literal_context_map: Bytes(literal), predmode_speed_and_distance_context_map: Bytes(p) }
}

/// The commands in the notation the command line tool reads.
pub fn text(window: u32, cmds: &[Cmd]) -> String {
    use std::fmt::Write;
    let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
    let mut s = format!("window {}{}\n", window, ["", " 0 0 0", " len 5"][r.below(3) as usize]);
    for c in cmds {
        match c {
            Command::Literal(l) => {
                let _ = write!(s, "{} {} ", if l.high_entropy { "rndins" } else { "insert" }, l.data.0.len());
                if r.below(2) == 0 {
                    for b in &l.data.0 {
                        let _ = write!(s, "{:02x}", b);
                    }
                } else {
                    s.push('"');
                    for b in &l.data.0 {
                        let _ = match *b {
                            b'\\' | b'"' => write!(s, "\\{}", *b as char),
                            b'a'..=b'z' | b'!'..=b'~' => write!(s, "{}", *b as char),
                            b => write!(s, "\\x{:02x}", b),
                        };
                    }
                    s.push('"');
                }
            },
            Command::Copy(c) => {
                let _ = write!(s, "copy {} from {}", c.num_bytes, c.distance);
                if r.below(2) == 0 {
                    s.push_str(" ctx 3");
                }
            },
            Command::Dict(d) => {
                let _ = write!(s, "dict {} word {},{} func {}", d.final_size, d.word_size, d.word_id, d.transform);
            },
            Command::BlockSwitchCommand(b) => {
                let _ = write!(s, "ctype {}", b.block_type());
            },
            Command::BlockSwitchDistance(b) => {
                let _ = write!(s, "dtype {}", b.block_type());
            },
            Command::BlockSwitchLiteral(b) => {
                let _ = write!(s, "ltype {} {}", b.block_type(), b.stride());
            },
            Command::PredictionMode(p) => {
                let m = &p.predmode_speed_and_distance_context_map.0;
                let _ = write!(s, "prediction {} lcontextmap", ["lsb6", "msb6", "utf8", "sign"][m[0] as usize & 3]);
                for x in &p.literal_context_map.0 {
                    let _ = write!(s, " {}", x);
                }
                s.push_str(" dcontextmap");
                for x in &m[DISTANCES..] {
                    let _ = write!(s, " {}", x);
                }
                if r.below(2) == 0 {
                    s.push_str(" mixingvalues");
                    for x in &m[MIXING..SPEEDS] {
                        let _ = write!(s, " {}", x);
                    }
                }
                if r.below(2) == 0 {
                    s.push_str(" cmspeedinc 2 4 cmspeedmax 1024 2048 stspeedinc 1 8 stspeedmax 128 16384 mxspeedinc 2 2 mxspeedmax 512 4096");
                }
            },
        }
        s.push('\n');
    }
    s
}
/// Puts all of `cmds` in, some at a time, and flushes.
pub fn feed(who: &str, e: &mut dyn CmdEnc, cmds: &[Cmd], out: &Mode, room: usize) -> Res<Vec<u8>> {
    let mut io = Io::new(&[], Slicing { output: out.clone(), ..Slicing::whole(room) });
    let mut at = 0;
    while at < cmds.len() {
        let n = 1 + choice::size(Stream::Chunk, 0, 40.min((cmds.len() - at) as u64 - 1)) as usize;
        let mut done = 0;
        while done < n {
            let m = io.s.output.next(room);
            let before = done;
            let st = io.call(who, 0, m, |_, _, o, oo| e.commands(&cmds[at..at + n], &mut done, o, oo))?;
            if done < before || done > n {
                return v("offset-range", format!("{}: command offset went from {} to {} of {}", who, before, done, n));
            }
            match st.r {
                R::Success if done != n => return v("commands-left", format!("{}: success with {} of {} commands taken", who, done, n)),
                R::Success | R::NeedOut => {},
                r => return v("commands-refused", format!("{}: {:?} at command {}: {:?}", who, r, at + done, cmds.get(at + done).map(|c| brief(c)))),
            }
            if done != before {
                io.idle = 0;
            }
            if st.r == R::NeedOut && done == n {
                // everything taken, something left to hand out: flush does that
                break;
            }
            if io.idle > PATIENCE {
                return v("no-progress", format!("{}: no progress in {} calls at command {}", who, io.idle, at + done));
            }
        }
        at += n;
    }
    loop {
        let m = io.s.output.next(room);
        match io.call("flush", 0, m, |_, _, o, oo| e.flush(o, oo))?.r {
            R::Success => return Ok(io.out),
            R::NeedOut => {},
            r => return v("flush-failed", format!("{}: {:?} from flush", who, r)),
        }
        if io.idle > PATIENCE || io.out.len() > RUNAWAY {
            return v("no-progress", format!("{}: flush after {} bytes", who, io.out.len()));
        }
    }
}
fn brief(c: &Cmd) -> String {
    match c {
        Command::Literal(l) => format!("literal of {}", l.data.0.len()),
        Command::PredictionMode(p) => format!("prediction mode {} {}", p.literal_context_map.0.len(), p.predmode_speed_and_distance_context_map.0.len()),
        c => format!("{:?}", c),
    }
}

// C14: commands decode to what they mean
pub fn c14() -> Res<()> {
    let mut opts = Opts::draw(true);
    opts.internal = true;
    let window = choice::pick_of(P, &[10u32, 10, 11, 12, 16, 18, 22]);
    opts.window = Some(window as i32);
    let huge = choice::chance(P, 1, 80);
    let (window, (cmds, want)) = if huge {
        let window = choice::pick_of(P, &[24u32, 23, 22, 21, 20]);
        opts.window = Some(window as i32);
        note::probe("further back than megabytes");
        (window, sequence_of(window, 200, 60_000, (1 << 20) + choice::pick(P, 20 << 20) as usize, 70_000))
    } else {
        (window, sequence(window, 600))
    };
    note::desc(&format!("{} commands for {} bytes, window {}", cmds.len(), want.len(), window));
    if cmds.is_empty() {
        return Ok(());
    }
    let out = Slicing::draw().tame(want.len()).output;
    if choice::chance(P, 1, 3) {
        let mut r = entry::recoder(window);
        let got = feed("interpreter", &mut *r, &cmds, &out, 1 << 16)?;
        if got != want {
            return v("wrong-data", format!("the interpreter made something else of the commands: {}", diff(&got, &want)));
        }
        note::probe("interpreted");
    }
    let mut e = entry::cmd_enc(&opts, 1000);
    let bytes = feed("encode_commands", &mut *e, &cmds, &out, 1 << 16)?;
    e.free();
    let (f, multi) = (front(), choice::chance(P, 1, 2));
    let s = Slicing::draw().tame(want.len());
    let o = decode(f, choice::chance(P, 1, 6), multi, 10, &bytes, &s, RUNAWAY)?;
    expect_data(if multi { "multithreaded decoder" } else { "serial decoder" }, &o, &want, bytes.len())?;
    if multi {
        if let Some((_, p)) = sched::worker_panics().into_iter().next() {
            return v("panic", format!("the worker thread panicked: {}", p));
        }
    }
    note::nontrivial();
    Ok(())
}
