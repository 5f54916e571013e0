//! The codec as one caller sees it: round trips, damaged input, the contract
//! of each call.
use super::*;
use crate::entry::{Enc, R};
use crate::model;

/// A decoder and the slicing it is driven with.
fn some_decoder() -> (Front, bool, Slicing) {
    let f = front();
    let multi = choice::chance(P, 1, 3);
    (f, multi, Slicing::draw())
}

// C04: round trip
pub fn c04() -> Res<()> {
    let mut data = gen::data(if choice::chance(P, 1, 6) { 300_000 } else { 40_000 });
    let mut opts = Opts::draw(false);
    let (mut fe, fd) = (front(), front());
    if choice::chance(P, 1, 60) {
        // known to fail in brotli now and then; a panic must not cross a C frame
        opts = Opts { stride_quality: Some(3), quality: Some(5), window: opts.window, lgblock: Some(16), ..Opts::default() };
        data = gen::make(5, 9_000 + choice::pick(P, 8_000) as usize, &mut choice::Rng::new(choice::pick(P, 1 << 40)));
        fe = Front::Rust;
    }
    if fe == Front::Rust && choice::chance(P, 1, 10) {
        let mut s = [(0i16, 0i16); 4];
        for x in s.iter_mut() {
            // within what the encoder's own palette spans: a frequency must stay above zero
            let inc = choice::size(P, 0, 1664);
            *x = (inc as i16, choice::size(P, (3 * inc).max(48), 0x4000) as i16);
        }
        note::desc(&format!("speeds {:?}", s));
        note::probe("speeds of no palette");
        opts.speeds = Some(s);
    }
    if choice::chance(P, 1, 150) {
        // repeats from megabytes back, more than the largest window holds
        let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
        let tile = choice::size(P, 1_000, 400_000) as usize;
        let n = (1 << 20) + choice::pick(P, if tile > 50_000 { 18 << 20 } else { 1 << 20 }) as usize;
        let noise: Vec<u8> = (0..tile).map(|_| r.next() as u8).collect();
        data = Vec::new();
        while data.len() < n {
            let from = r.below(tile as u64 / 2) as usize;
            let to = from + 1 + r.below((tile - from) as u64) as usize;
            data.extend_from_slice(&noise[from..to]);
            data.push(r.next() as u8);
        }
        // it is the lengths and distances that count here
        opts = Opts {
            quality: Some(choice::pick_of(P, &[5, 2, 4, 3, 1, 0])),
            window: Some(choice::pick_of(P, &[24, 22, 23, 20, 16])),
            lgblock: Some(choice::pick_of(P, &[18, 20, 22])),
            ..Opts::default()
        };
        note::desc(&format!("instead {} bytes of noise repeated, tile of {}", data.len(), tile));
        note::probe("data of megabytes");
    }
    let s = Slicing::draw().tame(data.len());
    let mut e = entry::enc(fe, &opts, 1000, calloc_for(fe));
    let bytes = compress_with(&mut *e, &data, &s)?;
    e.free();
    let s = Slicing::draw().tame(data.len());
    let o = decode(fd, choice::chance(P, 1, 6), false, 10, &bytes, &s, RUNAWAY)?;
    expect_data("serial decoder", &o, &data, bytes.len())?;
    note::nontrivial();
    Ok(())
}

// C05: what is coded depends on data and options only, and the bytes on those
// and the sizes of the calls
pub fn c05() -> Res<()> {
    let val = fresh(if choice::chance(P, 1, 6) { 200_000 } else { 30_000 }, false)?;
    let whole = match model::file(&val.bytes) {
        Ok(p) => p,
        Err(m) => return v("bad-file", format!("the compressor's output does not parse: {}", m)),
    };
    let (f, g) = (front(), front());
    let s = Slicing::draw().tame(val.data.len());
    let mut e = entry::enc(f, &val.opts, 2000, calloc_for(f));
    let (first, log) = compress_log(&mut *e, &val.data, &s, &mut || {})?;
    e.free();
    match model::file(&first) {
        Ok(p) => for k in 0..2 {
            if p.streams[k] != whole.streams[k] {
                return v("content-differs", format!("sliced differently, the same data and options give different {} ({:?}): {}", ["commands", "literals"][k], f, diff(&p.streams[k], &whole.streams[k])));
            }
        },
        Err(m) => return v("bad-file", format!("sliced differently, the output does not parse ({:?}): {}", f, m)),
    }
    // the same calls again, while another instance may be at work in between
    let mut second: Option<(Box<dyn Enc>, Vec<u8>, usize)> = None;
    if choice::chance(P, 1, 2) {
        let d2 = gen::data(20_000);
        let o2 = Opts::draw(true);
        second = Some((entry::enc(Front::Rust, &o2, 3000, alloc::NO_ALLOC), d2, 0));
        note::fault("another instance in between");
    }
    let mut out2 = vec![0u8; 1 << 14];
    let again = Slicing { script: Some(std::rc::Rc::new(log)), ..s };
    let mut e = entry::enc(g, &val.opts, 4000, calloc_for(g));
    let (bytes, _) = compress_log(&mut *e, &val.data, &again, &mut || {
        if let Some((ref mut e2, ref d2, ref mut at)) = second {
            if *at < d2.len() {
                let n = (d2.len() - *at).min(1000);
                let (mut io, mut oo) = (0, 0);
                let _ = e2.encode(&d2[*at..*at + n], &mut io, &mut out2, &mut oo);
                *at += io;
            }
        }
    })?;
    e.free();
    if let Some((e2, _, _)) = second {
        e2.free();
    }
    if bytes != first {
        return v("bytes-differ", format!("the same calls gave different bytes ({:?}, then {:?}): {}", f, g, diff(&first, &bytes)));
    }
    if first == val.bytes {
        note::probe("framing unchanged by the slicing");
    } else {
        note::probe("framing changed by the slicing");
    }
    note::nontrivial();
    Ok(())
}

// C06: what comes out does not depend on the slicing, and success comes
// exactly at the end of the stream
pub fn c06() -> Res<()> {
    let val = valid(30_000, true)?;
    let (f, multi, s) = some_decoder();
    let s = s.tame(val.data.len());
    let mut bytes = val.bytes.clone();
    let damaged = choice::chance(F, 1, 3);
    let mut extra = 0;
    if damaged {
        hostile::or_damage(&mut bytes)?;
    } else {
        extra = choice::pick_of(F, &[0usize, 1, 5, 300, 5000]);
        if extra != 0 {
            note::fault("bytes after the end");
        }
        let mut r = choice::Rng::new(choice::pick(F, 1 << 30));
        let again = choice::chance(F, 1, 3);
        for i in 0..extra {
            bytes.push(if again { val.bytes[i % val.bytes.len()] } else { r.next() as u8 });
        }
    }
    let skip = choice::chance(P, 1, 4);
    let limit = if damaged { 200_000 } else { RUNAWAY };
    let o = decode(f, skip, multi, 10, &bytes, &s, limit)?;
    if !damaged {
        expect_data(if multi { "multithreaded decoder" } else { "serial decoder" }, &o, &val.data, bytes.len() - extra)?;
    } else {
        let whole = decode(Front::Rust, skip, false, 100, &bytes, &Slicing::whole(1 << 16), limit)?;
        // whether a fault is noticed before the input runs out may depend on how
        // far commands are decoded ahead of literals, and that on the slicing
        match (&o.end, &whole.end) {
            (End::Enough, _) | (_, End::Enough) => {},
            (End::Done(a), End::Done(b)) => if a != b || o.out != whole.out {
                return v("slicing-matters", format!("success at {} and at {}; {}", a, b, diff(&o.out, &whole.out)));
            },
            (End::Done(_), x) | (x, End::Done(_)) => return v("slicing-matters", format!("success with one slicing, {:?} with another", x)),
            _ => {
                let n = o.out.len().min(whole.out.len());
                if o.out[..n] != whole.out[..n] {
                    return v("slicing-matters", format!("different bytes before the failure: {}", diff(&o.out, &whole.out)));
                }
            },
        }
    }
    note::nontrivial();
    Ok(())
}

// C07: a damaged stream is never taken for a good one
pub fn c07() -> Res<()> {
    let val = valid(20_000, true)?;
    let (f, multi, s) = some_decoder();
    let s = s.tame(val.data.len());
    let mut bytes = val.bytes.clone();
    match choice::weighted(F, &[4, 3, 2]) {
        0 => {
            // a burst of at most 32 bits, which the checksum detects for certain
            let bits = bytes.len() as u64 * 8;
            let at = choice::pick(F, bits);
            let len = 1 + choice::pick(F, 32);
            let mask = choice::pick(F, 1 << 32) | 1;
            for k in 0..len {
                if mask >> k & 1 != 0 && at + k < bits {
                    bytes[((at + k) / 8) as usize] ^= 1 << ((at + k) % 8);
                }
            }
            note::fault("burst of flipped bits");
        },
        1 => {
            for _ in 0..1 + choice::pick(F, 3) {
                let i = choice::pick(F, bytes.len() as u64) as usize;
                bytes[i] ^= 1 << choice::pick(F, 8);
            }
            note::fault("flipped bits");
        },
        _ => damage(&mut bytes),
    }
    if bytes == val.bytes {
        return Ok(());
    }
    let o = decode(f, false, multi, 10, &bytes, &s, 200_000)?;
    if let End::Done(n) = o.end {
        if o.out != val.data {
            return v("corruption-accepted", format!("a damaged stream was decoded with success after {} bytes: {}", n, diff(&o.out, &val.data)));
        }
        note::probe("damaged stream decoded to the right bytes");
    }
    note::nontrivial();
    Ok(())
}

// C08: no proper prefix of a stream is taken for a stream
pub fn c08() -> Res<()> {
    let val = valid(20_000, true)?;
    let (f, multi, s) = some_decoder();
    let s = s.tame(val.data.len());
    let cut = match choice::weighted(F, &[3, 2, 2]) {
        0 => choice::pick(F, val.bytes.len() as u64) as usize,
        1 => val.bytes.len() - 1 - choice::pick(F, 12.min(val.bytes.len() as u64 - 1)) as usize,
        _ => choice::pick(F, 40.min(val.bytes.len() as u64)) as usize,
    };
    note::fault("truncated stream");
    let o = decode(f, choice::chance(P, 1, 3), multi, 10, &val.bytes[..cut], &s, RUNAWAY)?;
    if let End::Done(n) = o.end {
        return v("truncation-accepted", format!("success on the first {} of {} bytes (after {})", cut, val.bytes.len(), n));
    }
    let n = o.out.len();
    if n > val.data.len() || o.out != val.data[..n] {
        return v("wrong-data", format!("the first {} bytes decode to something else: {}", cut, diff(&o.out, &val.data)));
    }
    note::nontrivial();
    Ok(())
}

// C09: any bytes at all
pub fn c09() -> Res<()> {
    let val = valid(12_000, true)?;
    let (f, multi, s) = some_decoder();
    let s = s.tame(val.data.len());
    let mut bytes = val.bytes.clone();
    match choice::weighted(F, &[3, 4, 2, 2, 2, 6]) {
        0 => for _ in 0..1 + choice::pick(F, 2) {
            damage(&mut bytes);
        },
        1 => {
            // past the header: leave the framing alone, upset what is inside
            if bytes.len() > 20 {
                let n = 1 + choice::size(F, 0, 200);
                let mut r = choice::Rng::new(choice::pick(F, 1 << 40));
                for _ in 0..n {
                    let i = 19 + r.below(bytes.len() as u64 - 19) as usize;
                    bytes[i] = r.next() as u8;
                }
                note::fault("overwritten bytes");
            }
        },
        2 => {
            bytes.truncate(16);
            let mut r = choice::Rng::new(choice::pick(F, 1 << 40));
            for _ in 0..choice::size(F, 0, 8000) {
                bytes.push(r.next() as u8);
            }
            note::fault("random bytes after a good header");
        },
        3 => {
            // two streams spliced
            let other = valid(12_000, true)?;
            let a = choice::pick(F, bytes.len() as u64 + 1) as usize;
            let b = choice::pick(F, other.bytes.len() as u64 + 1) as usize;
            bytes.truncate(a);
            bytes.extend_from_slice(&other.bytes[b..]);
            note::fault("spliced streams");
        },
        5 => if let Some(b) = hostile::stream()? {
            bytes = b;
        },
        _ => {
            // framing: random stream headers over real payload
            if bytes.len() > 16 {
                let mut r = choice::Rng::new(choice::pick(F, 1 << 40));
                let body = bytes.split_off(16);
                let mut at = 0;
                while at < body.len() {
                    let n = (1 + r.below(400) as usize).min(body.len() - at);
                    bytes.push(r.next() as u8);
                    if r.below(2) == 0 {
                        bytes.push((n - 1) as u8);
                        bytes.push(((n - 1) >> 8) as u8);
                    }
                    bytes.extend_from_slice(&body[at..at + n]);
                    at += n;
                }
                note::fault("reframed payload");
            }
        },
    }
    if choice::chance(F, 1, 10) && bytes.len() > 5 {
        bytes[5] = choice::pick(F, 256) as u8;
        note::fault("window size overwritten");
    }
    let skip = !choice::chance(P, 1, 3);
    let o = decode(f, skip, multi, 10, &bytes, &s, 1 << 23)?;
    match o.end {
        End::Failed(_) => note::probe("refused"),
        End::Done(_) => note::probe("accepted"),
        End::Hungry => note::probe("wants more"),
        End::Enough => note::probe("output limit reached"),
    }
    if multi {
        if let Some((_, p)) = sched::worker_panics().into_iter().next() {
            return v("panic", format!("the worker thread panicked: {}", p));
        }
        if let Some(w) = sched::quiesce() {
            return v("worker-left", w);
        }
    }
    note::nontrivial();
    Ok(())
}

// C10: the end is the end
pub fn c10() -> Res<()> {
    if choice::chance(P, 1, 3) {
        return c10_encoder();
    }
    let val = valid(12_000, true)?;
    let (f, multi, s) = some_decoder();
    let s = s.tame(val.data.len());
    let mut bytes = val.bytes.clone();
    let damaged = choice::chance(F, 1, 2);
    if damaged {
        hostile::or_damage(&mut bytes)?;
    }
    let mut d = entry::dec(f, choice::chance(P, 1, 4), multi, 10, calloc_for(f));
    let o = decompress_with(&mut *d, &bytes, &s, 200_000)?;
    let n = 1 + choice::pick(F, 6);
    for i in 0..n {
        sched::client_step();
        let junk: Vec<u8> = match choice::pick(F, 3) {
            0 => Vec::new(),
            1 => val.bytes[..val.bytes.len().min(400)].to_vec(),
            _ => vec![0x5a; 33],
        };
        let room = choice::pick_of(F, &[0usize, 1, 100, 70_000]);
        let mut io = Io::new(&junk, Slicing::whole(room));
        let st = io.call("decode after the end", junk.len(), room, |i, io, o, oo| d.decode(i, io, o, oo))?;
        note::fault("call after the end");
        match (&o.end, &st.r) {
            (End::Done(_), R::Success) => if st.took != 0 || st.gave != 0 {
                return v("not-final", format!("call {} after success took {} and gave {} bytes", i + 1, st.took, st.gave));
            },
            (End::Done(_), r) => return v("not-final", format!("call {} after success answered {:?}", i + 1, r)),
            (End::Failed(_), R::Fail(_)) => if st.gave != 0 {
                return v("not-final", format!("call {} after failure gave {} bytes", i + 1, st.gave));
            },
            (End::Failed(m), r) => return v("not-final", format!("call {} after failure ({}) answered {:?}", i + 1, m, r)),
            _ => break,
        }
    }
    if let Err(m) = crate::panics::catch(|| d.free()) {
        return v("panic", format!("free panicked: {}", m));
    }
    note::nontrivial();
    Ok(())
}
fn c10_encoder() -> Res<()> {
    let data = gen::data(12_000);
    let opts = Opts::draw(true);
    let f = front();
    let s = Slicing::draw().tame(data.len());
    let mut e = entry::enc(f, &opts, 1000, calloc_for(f));
    compress_with(&mut *e, &data, &s)?;
    for i in 0..1 + choice::pick(F, 4) {
        let room = choice::pick_of(F, &[0usize, 1, 100, 70_000]);
        let mut io = Io::new(&[], Slicing::whole(room));
        let st = io.call("flush after the end", 0, room, |_, _, o, oo| e.flush(o, oo))?;
        note::fault("call after the end");
        if st.r != R::Success || st.gave != 0 {
            return v("not-final", format!("flush {} after success answered {:?} and gave {} bytes", i + 1, st.r, st.gave));
        }
    }
    e.free();
    note::nontrivial();
    Ok(())
}
