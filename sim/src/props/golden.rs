//! Streams made by earlier builds, kept in corpus.bin.
//!
//! The file is a list of streams: length of the stream (u32), length of what it
//! decodes to (u32), two hashes of that (u64 each), the stream.
use super::*;
use crate::entry::Enc;

static CORPUS: &[u8] = include_bytes!("../../corpus.bin");
/// Streams for megabytes.
static LARGE: &[u8] = include_bytes!("../../large.bin");

struct Old {
    bytes: &'static [u8],
    len: usize,
    hash: [u64; 2],
}
fn hash(data: &[u8]) -> [u64; 2] {
    let mut h = [0xcbf2_9ce4_8422_2325u64, 0x9e37_79b9_7f4a_7c15];
    for b in data {
        h[0] = (h[0] ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h[1] = (h[1].rotate_left(7) ^ *b as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
    }
    h
}
fn corpus(mut b: &'static [u8]) -> Vec<Old> {
    let mut v = Vec::new();
    let word = |b: &[u8], at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
    while b.len() >= 24 {
        let l = word(b, 0);
        let (n, len) = ((l & 0xffff_ffff) as usize, (l >> 32) as usize);
        v.push(Old { bytes: &b[24..24 + n], len, hash: [word(b, 8), word(b, 16)] });
        b = &b[24 + n..];
    }
    v
}

// C19: streams made by earlier builds
pub fn c19() -> Res<()> {
    let f = front();
    old(&|skip, multi| entry::dec(f, skip, multi, 10, calloc_for(f)))?;
    note::nontrivial();
    Ok(())
}
/// Decodes one of them with what `dec` makes.
pub fn old(dec: &dyn Fn(bool, bool) -> Box<dyn Dec>) -> Res<()> {
    thread_local!(static ALL: [Vec<Old>; 2] = [corpus(CORPUS), corpus(LARGE)]);
    let large = choice::chance(P, 1, 30) as usize;
    let n = ALL.with(|a| a[large].len()) as u64;
    let k = choice::pick(P, n) as usize;
    let (bytes, len, want) = ALL.with(|a| (a[large][k].bytes, a[large][k].len, a[large][k].hash));
    note::desc(&format!("{} {} of the corpus, {} bytes for {}", ["stream", "large stream"][large], k, bytes.len(), len));
    let multi = choice::chance(P, 1, 2);
    let s = Slicing::draw().tame(len);
    let mut d = dec(choice::chance(P, 1, 6), multi);
    let o = decompress_with(&mut *d, bytes, &s, RUNAWAY)?;
    d.free();
    if o.end != End::Done(bytes.len()) || o.out.len() != len || hash(&o.out) != want {
        return v("not-decoded", format!("stream {} made earlier for {} bytes: {:?} with {} bytes{}", k, len, o.end, o.out.len(), if o.out.len() == len && hash(&o.out) != want { ", different ones" } else { "" }));
    }
    Ok(())
}

/// Makes stream `k` of a corpus.
fn one(k: u64) -> Res<(Vec<u8>, Vec<u8>)> {
    if k >= 200_000 {
        // long runs of literals, in commands of several block types
        let mut opts = Opts::draw(false);
        opts.internal = true;
        opts.window = Some(choice::pick_of(P, &[10, 16, 20, 22]));
        let mut r = choice::Rng::new(k);
        let (mut cmds, mut want) = (Vec::new(), Vec::new());
        let limit = 1usize << (17 + r.below(5));
        for _ in 0..4 + r.below(20) {
            if want.len() > limit {
                break;
            }
            if r.below(3) == 0 {
                cmds.push(commands::block_of_commands(&mut r));
            }
            let n = (1usize << (12 + r.below(8))) + r.below(1 << 12) as usize + [0, 15, 16, 17][r.below(4) as usize];
            let (a, b) = (r.next() as u8, r.next() as u8);
            let run: Vec<u8> = (0..n).map(|i| if i % 61 == 0 { b } else { a }).collect();
            want.extend_from_slice(&run);
            cmds.push(commands::literal(run, r.below(6) == 0));
        }
        let mut e = entry::cmd_enc(&opts, 1000);
        let bytes = commands::feed("encode_commands", &mut *e, &cmds, &Mode::Whole, 1 << 16)?;
        e.free();
        return Ok((bytes, want));
    }
    if k >= 100_000 {
        // far and long copies
        let mut opts = Opts::draw(false);
        if k % 3 != 0 {
            opts.internal = true;
            let window = choice::pick_of(P, &[19u32, 20, 21, 22, 23, 24]);
            opts.window = Some(window as i32);
            let huge = choice::size(P, 1 << 19, 6 << 20) as usize;
            let (cmds, want) = commands::sequence_of(window, 120, 60_000, huge, 3_000);
            let mut e = entry::cmd_enc(&opts, 1000);
            let bytes = commands::feed("encode_commands", &mut *e, &cmds, &Mode::Whole, 1 << 16)?;
            e.free();
            return Ok((bytes, want));
        }
        let mut r = choice::Rng::new(k);
        let mut data = Vec::new();
        for _ in 0..2 + r.below(8) {
            let most = [3, 300][r.below(2) as usize];
            let t = 1 + r.below(most) as usize;
            let tile: Vec<u8> = (0..t).map(|_| r.next() as u8).collect();
            let n = 1 << r.below(20);
            data.extend(tile.iter().cycle().take(n + r.below(n as u64) as usize));
        }
        let have = data.clone();
        for _ in 0..1 + r.below(6) {
            let at = r.below(have.len() as u64) as usize;
            let n = (1usize << r.below(20)).min(have.len() - at);
            data.extend_from_slice(&have[at..at + n]);
        }
        opts.internal = false;
        opts.lgblock = Some(choice::pick_of(P, &[18u32, 20, 22, 24]));
        opts.window = Some(choice::pick_of(P, &[16, 18, 20, 22, 24]));
        let (_, bytes) = compress_plain(&data, opts)?;
        return Ok((bytes, data));
    }
    if k >= 20_000 {
        let valid = anything(3_000, k % 3 != 0)?;
        return Ok((valid.bytes, valid.data));
    }
    if k % 4 == 3 {
        let mut opts = Opts::draw(true);
        opts.internal = true;
        let window = choice::pick_of(P, &[10u32, 11, 12, 16, 18]);
        opts.window = Some(window as i32);
        let (cmds, want) = commands::sequence(window, 120);
        let mut e = entry::cmd_enc(&opts, 1000);
        let bytes = commands::feed("encode_commands", &mut *e, &cmds, &Slicing::draw().tame(want.len()).output, 1 << 16)?;
        e.free();
        return Ok((bytes, want));
    }
    let data = gen::data(if k % 16 == 0 { 20_000 } else { 3_000 });
    let opts = Opts::draw(true);
    let s = Slicing::draw().tame(data.len());
    let mut e: Box<dyn Enc> = entry::enc(Front::Rust, &opts, 1000, alloc::NO_ALLOC);
    let bytes = compress_with(&mut *e, &data, &s)?;
    e.free();
    Ok((bytes, data))
}
/// divsim corpus OUT FROM TO
pub fn make(args: &[String]) -> i32 {
    let (from, to): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut out = Vec::new();
    let mut n = 0;
    for k in from..to {
        note::reset();
        alloc::reset();
        choice::begin(0xc0_7075 ^ k << 20, None);
        sched::enter(sched::Config::plain(), |k, d| panic!("{}: {}", k, d));
        let r = crate::panics::catch(|| -> Res<Option<(Vec<u8>, Vec<u8>)>> {
            let (bytes, data) = one(k)?;
            let o = decode(Front::Rust, false, false, 10, &bytes, &Slicing::whole(1 << 16), RUNAWAY)?;
            Ok(if o.out == data && o.end == End::Done(bytes.len()) { Some((bytes, data)) } else { None })
        });
        let _ = sched::leave();
        match r {
            Ok(Ok(Some((_, data)))) if k >= 20_000 && data.len() < 200 => {},
            Ok(Ok(Some((bytes, data)))) if bytes.len() <= if k < 100_000 { 6_000 } else { 30_000 } => {
                out.extend_from_slice(&(bytes.len() as u64 | (data.len() as u64) << 32).to_le_bytes());
                for h in hash(&data) {
                    out.extend_from_slice(&h.to_le_bytes());
                }
                out.extend_from_slice(&bytes);
                n += 1;
            },
            Ok(Ok(Some(_))) => {},
            Ok(Ok(None)) => println!("{}: does not decode", k),
            Ok(Err(e)) => println!("{}: {}", k, e.detail),
            Err(e) => println!("{}: {}", k, e),
        }
    }
    std::fs::write(&args[0], &out).unwrap();
    println!("{} streams, {} bytes", n, out.len());
    0
}
