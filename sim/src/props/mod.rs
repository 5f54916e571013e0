//! The scenarios and their oracles, one per property.

use crate::alloc;
use crate::choice::{self, Stream};
use crate::drive::*;
use crate::entry::{self, Dec, Front};
use crate::gen::{self, Opts};
use crate::{note, sched};
pub mod adaptors;
#[cfg(feature = "builds")]
pub mod builds;
pub mod calls;
#[cfg(feature = "cli")]
pub mod cli;
pub mod codec;
pub mod commands;
pub mod golden;
pub mod space;
pub mod hostile;
pub mod memory;
pub mod threads;
use Stream::Fault as F;
use Stream::Plan as P;

pub struct Prop {
    pub id: &'static str,
    /// scheduling policy is drawn per run (the scenario starts threads)
    pub threads: bool,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn() -> Res<()>,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumes: &'static [&'static str],
}
/// What every rule starts with.
macro_rules! rule {
    ($t:expr) => {
        concat!("Each run draws data (ten shapes), compressor options, call slicings, faults and, with threads, a schedule from its seed. ", $t,
            " A run is non-trivial if it reached the end of its scenario with its oracle evaluated; distinct runs are told apart by a hash of the sizes every call consumed and produced and of the interleaving.")
    };
}
macro_rules! p {
    ($id:expr, $threads:expr, $quick:expr, $run:expr, $rule:expr) => {
        Prop { id: $id, threads: $threads, quick: $quick, thorough: $quick * 80, run: $run, rule: rule!($rule), real: REAL,
            stub: if $threads { STUB_T } else { STUB }, assumes: if $threads { ASSUME_T } else { ASSUME } }
    };
}
pub static ALL: &[Prop] = &[
    p!("C01", true, 12000, threads::c01, "A stream, a quarter of the time damaged, is decoded multithreaded under a drawn schedule and compared with the original data, or with the serial decoder if damaged."),
    p!("C02", true, 12000, threads::c02, "A damaged stream is decoded multithreaded under a drawn schedule; a deadlock, a call that makes no progress, or steps without progress after scheduling faults stop is a violation."),
    p!("C03", true, 18000, threads::c03, "A multithreaded decoder is freed after a drawn number of calls; the worker must end and every block must be back."),
    p!("C04", false, 6500, codec::c04, "Data is compressed and decompressed with drawn options, slicings and interfaces and compared."),
    p!("C05", false, 2500, codec::c05, "Data is compressed whole, sliced, and again with the same calls through another interface; payloads and bytes are compared."),
    p!("C06", true, 12000, codec::c06, "A stream with bytes after its end, or a damaged one, is decoded sliced; position of success and bytes are compared with the original, or with decoding in one call."),
    p!("C07", true, 18000, codec::c07, "A stream is altered (a third of the time in at most 32 consecutive bits) and decoded; success with other bytes is a violation."),
    p!("C08", true, 18000, codec::c08, "A stream is cut at a drawn place and decoded; success, or bytes that are no prefix of the original, is a violation."),
    p!("C09", true, 30000, codec::c09, "Damaged, spliced, reframed or random streams are decoded; panics, stray writes, offsets out of range, hangs are violations."),
    p!("C10", true, 12000, codec::c10, "A stream is brought to its end or failure and further calls are made."),
    p!("C11", true, 8000, adaptors::c11, "A stream or data is read through a Read adaptor over a reader that gives short reads, Interrupted, WouldBlock and hard errors; a careful caller must end up with exactly the right bytes, every error once, and no clean end of a truncated stream."),
    p!("C12", true, 8000, adaptors::c12, "A stream or data is written through a Write adaptor over a writer that takes part of what it is given, nothing, or fails; a careful caller must find exactly the right bytes underneath after a successful flush, and nothing after it."),
    p!("C13", true, 12000, memory::c13, "A compressor or decoder is used to its end, to a failure or given up after a drawn number of calls, and freed; the books of both kinds of allocator are then balanced."),
    p!("C14", true, 7000, commands::c14, "A sequence of commands, each valid where it stands, is encoded in batches with a drawn slicing, and interpreted; what is decoded is compared with what the commands mean by a model of them."),
    #[cfg(feature = "cli")]
    p!("C15", true, 8000, cli::c15, "The command line tool is run as a process of a simulated system with files and standard streams that give short reads and writes, Interrupted, errors, full disks; exit status 0 with a wrong or incomplete result is a violation, and so is failure when nothing failed."),
    p!("C16", true, 10000, calls::c16, "Data is compressed or decoded by a caller with one buffer on each side that does what the last answer said and nothing else."),
    p!("C17", false, 7000, calls::c17, "The C functions are called in step with the Rust ones, option by option and call by call, with misuse in between; every answer is compared."),
    p!("C18", true, 5000, calls::c18, "Two to four compressors and decoders take turns; each must do what it does alone."),
    p!("C19", true, 30000, golden::c19, "A stream made by an earlier build and kept since is decoded; what comes out must be what went in then."),
    #[cfg(feature = "builds")]
    p!("C20", true, 6000, builds::c20, "divans built with other features is given the same calls as the usual build, and its streams; bytes and answers are compared."),
    p!("C21", false, 5000, space::c21, "Data is compressed, by any interface and slicing; a pattern that repeats within the window must shrink to less than half, and nothing may become much larger."),
];
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
const REAL: &str = "divans (all of it, built from /repo with cfg(divans_sim)), the brotli crate";
const STUB: &str = "the caller, the allocators it passes in";
const STUB_T: &str = "the caller, the allocators it passes in, std::thread and std::sync (threads are real but one runs at a time, chosen by the simulator), the clock";
const ASSUME: &[&str] = &["the brotli crate does not depend on anything but its input"];
const ASSUME_T: &[&str] = &["interleavings change hands only at lock, wait, notify and spawn operations"];

fn front() -> Front {
    choice::pick_of(P, &[Front::Rust, Front::CAlloc, Front::C])
}
fn calloc_for(f: Front) -> alloc::CAllocator {
    if f == Front::CAlloc { alloc::c_heap(0) } else { alloc::NO_ALLOC }
}

/// A valid stream: data, options and the compressed bytes.
#[derive(Clone)]
pub struct Valid {
    pub data: Vec<u8>,
    pub opts: Opts,
    pub bytes: Vec<u8>,
}
/// Mostly from a pool that depends on nothing but its index, as compressing
/// costs several times what decoding does.
pub fn valid(max: u64, cheap: bool) -> Res<Valid> {
    thread_local!(static POOL: std::cell::RefCell<std::collections::HashMap<(u64, u64, bool), (Valid, String)>> = Default::default());
    if choice::chance(P, 9, 10) {
        let k = choice::pick(P, POOL_SIZE);
        let have = POOL.with(|p| p.borrow().contains_key(&(k, max, cheap)));
        if !have {
            let (notes, books) = (note::snapshot(), alloc::take());
            note::reset();
            let made = choice::scoped(0x706f_6f6c ^ k << 32 ^ max << 8 ^ cheap as u64, || anything(max, cheap));
            let desc = note::snapshot().desc;
            note::restore(notes);
            alloc::put(books);
            let made = made?;
            POOL.with(|p| p.borrow_mut().insert((k, max, cheap), (made, desc)));
        }
        return Ok(POOL.with(|p| {
            let p = p.borrow();
            let (v, d) = &p[&(k, max, cheap)];
            note::desc(&format!("pooled stream {}: {}", k, d));
            Valid { data: v.data.clone(), opts: v.opts.clone(), bytes: v.bytes.clone() }
        }));
    }
    anything(max, cheap)
}
const POOL_SIZE: u64 = 128;
fn anything(max: u64, cheap: bool) -> Res<Valid> {
    if choice::chance(P, 1, 3) {
        // what no compressor would choose: words, far copies, block switches, changes of mode
        let mut opts = Opts::draw(cheap);
        opts.internal = true;
        let window = choice::pick_of(P, &[10u32, 10, 10, 11, 12]);
        opts.window = Some(window as i32);
        let (cmds, data) = commands::sequence_of(window, 300, max as usize, 0, 0);
        if !cmds.is_empty() {
            let mut e = entry::cmd_enc(&opts, 1000);
            let bytes = commands::feed("encode_commands", &mut *e, &cmds, &Mode::Whole, 1 << 16)?;
            e.free();
            note::desc(&format!("{} commands for {} bytes, window {}", cmds.len(), data.len(), window));
            return Ok(Valid { data, opts, bytes });
        }
    }
    fresh(max, cheap)
}
fn fresh(max: u64, cheap: bool) -> Res<Valid> {
    let data = gen::data(max);
    let opts = Opts::draw(cheap);
    let (opts, bytes) = compress_plain(&data, opts)?;
    Ok(Valid { data, opts, bytes })
}
/// Compresses in one go. Where brotli itself gives up on the options (C04
/// looks at that), plainer ones are used.
pub fn compress_plain(data: &[u8], mut opts: Opts) -> Res<(Opts, Vec<u8>)> {
    for last in [false, true] {
        let mut e = entry::enc(Front::Rust, &opts, 1000, alloc::NO_ALLOC);
        match compress_with(&mut *e, data, &Slicing::whole(1 << 16)) {
            Ok(bytes) => {
                e.free();
                return Ok((opts, bytes));
            },
            Err(bad) if last || !in_brotli(&bad) => return Err(bad),
            Err(_) => {
                note::probe("brotli panicked, plainer options used");
                opts = Opts { internal: opts.internal, quality: Some(5), window: opts.window, lgblock: Some(16), ..Opts::default() };
                alloc::reset();
            },
        }
    }
    unreachable!()
}
pub fn in_brotli(bad: &V) -> bool {
    bad.kind == "panic" && bad.detail.contains("/brotli-")
}
pub fn decode(f: Front, skip: bool, multi: bool, id: u32, bytes: &[u8], s: &Slicing, limit: usize) -> Res<Outcome> {
    let ca = calloc_for(f);
    let mut d = entry::dec(f, skip, multi, id, ca);
    let o = decompress_with(&mut *d, bytes, s, limit)?;
    let r = crate::panics::catch(|| d.free());
    if let Err(m) = r {
        return v("panic", format!("free panicked: {}", m));
    }
    Ok(o)
}

fn expect_data(who: &str, o: &Outcome, want: &[u8], total: usize) -> Res<()> {
    match o.end {
        End::Done(n) => {
            if o.out != want {
                return v("wrong-data", format!("{}: success with different bytes: {}", who, diff(&o.out, want)));
            }
            if n != total {
                return v("end-position", format!("{}: success after {} of the stream's {} bytes", who, n, total));
            }
            if o.asked != 0 {
                return v("asked-beyond-end", format!("{}: asked {} times for more input when it had taken the whole stream", who, o.asked));
            }
            Ok(())
        },
        ref other => v("not-decoded", format!("{}: {:?} after {} of {} output bytes", who, other, o.out.len(), want.len())),
    }
}

fn damage(b: &mut Vec<u8>) {
    match choice::weighted(F, &[3, 3, 2, 2]) {
        0 => {
            let n = choice::pick(F, b.len() as u64 + 1) as usize;
            b.truncate(n);
            note::fault("truncated stream");
        },
        1 => {
            let n = 1 + choice::pick(F, 4);
            for _ in 0..n {
                if !b.is_empty() {
                    let i = choice::pick(F, b.len() as u64) as usize;
                    b[i] ^= 1 << choice::pick(F, 8);
                }
            }
            note::fault("flipped bits");
        },
        2 => {
            if b.len() > 16 {
                let mut r = choice::Rng::new(choice::pick(F, 1 << 40));
                let from = 16 + choice::pick(F, (b.len() - 16) as u64) as usize;
                for x in b[from..].iter_mut() {
                    *x = r.next() as u8;
                }
                note::fault("overwritten tail");
            }
        },
        _ => {
            if b.len() > 16 {
                let i = choice::pick(F, b.len() as u64) as usize;
                let n = (1 + choice::pick(F, 64) as usize).min(b.len() - i);
                b.drain(i..i + n);
                note::fault("lost bytes");
            }
        },
    }
}
