//! What is asked of the caller's allocator, and what comes back.
use super::*;
use crate::entry::R;

fn settle(who: &str) -> Res<()> {
    if let Some(w) = sched::quiesce() {
        return v("worker-left", format!("{}: {}", who, w));
    }
    let l = alloc::take();
    if let Some(w) = l.wrong.first() {
        return v("wrong-free", format!("{}: {}", who, w));
    }
    let out = l.outstanding();
    if !out.is_empty() {
        return v("not-returned", format!("{}: {} blocks never came back, first {:?}", who, out.len(), out[0]));
    }
    if !l.dropped.is_empty() {
        return v("not-returned", format!("{}: {} blocks were dropped instead of given back, first {:?}", who, l.dropped.len(), l.dropped[0]));
    }
    if l.allocs != 0 {
        note::probe_n("blocks handed out and back (Rust)", l.allocs);
    }
    let h = alloc::c_take();
    if let Some(w) = h.wrong.first() {
        return v("wrong-free", format!("{}: {}", who, w));
    }
    if !h.outstanding().is_empty() {
        return v("not-returned", format!("{}: {} blocks never came back, sizes {:?}", who, h.outstanding().len(), &h.outstanding()[..h.outstanding().len().min(8)]));
    }
    if h.allocs != 0 {
        note::probe_n("blocks handed out and back (C)", h.allocs);
    }
    Ok(())
}

// C13: every block comes back, once, to the allocator it came from
pub fn c13() -> Res<()> {
    if choice::chance(P, 1, 3) {
        return c13_encoder();
    }
    let val = valid(12_000, true)?;
    let f = if choice::chance(P, 1, 2) { Front::Rust } else { Front::CAlloc };
    let multi = choice::chance(P, 1, 2);
    let mut bytes = val.bytes.clone();
    if choice::chance(F, 1, 2) {
        damage(&mut bytes);
    }
    let s = Slicing::draw().tame(val.data.len());
    let _ = (alloc::take(), alloc::c_take());
    let mut d = entry::dec(f, choice::chance(P, 1, 3), multi, 10, calloc_for(f));
    let stop = choice::chance(F, 1, 2);
    let max = if stop { choice::size(F, 0, 200) } else { u64::MAX };
    let o = if max == 0 { None } else { Some(decompress_cb(&mut *d, &bytes, &s, 200_000, max, &mut || {})?.end) };
    if stop {
        note::fault("given up half way");
    }
    if choice::chance(F, 1, 4) {
        // once more, as callers do
        if let Some(End::Done(_)) | Some(End::Failed(_)) = o {
            let mut io = Io::new(&[1, 2, 3], Slicing::whole(10));
            let _ = io.call("decode after the end", 3, 10, |i, io, o, oo| d.decode(i, io, o, oo))?;
        }
    }
    d.free();
    settle(&format!("{} decoder{} ending {:?}", if multi { "multithreaded" } else { "serial" }, if stop { " given up" } else { "" }, o))?;
    note::nontrivial();
    Ok(())
}
fn c13_encoder() -> Res<()> {
    // a compressor given up before its end has much to give back once a
    // metablock has been coded
    let big = choice::chance(P, 1, 5);
    let mut opts = Opts::draw(true);
    let data = if big {
        opts.internal = false;
        opts.window = Some(16);
        opts.lgblock = Some(16);
        opts.quality = Some(choice::pick_of(P, &[5, 2, 7, 9]));
        gen::make(10, 66_000 + choice::pick(P, 120_000) as usize, &mut choice::Rng::new(choice::pick(P, 1 << 40)))
    } else {
        gen::data(12_000)
    };
    let f = if choice::chance(P, 1, 2) { Front::Rust } else { Front::CAlloc };
    let s = if big { Slicing::whole(1 << 16) } else { Slicing::draw().tame(data.len()) };
    let _ = (alloc::take(), alloc::c_take());
    let mut e = entry::enc(f, &opts, 1000, calloc_for(f));
    let stop = choice::chance(F, 1, 2);
    if !stop {
        compress_with(&mut *e, &data, &s)?;
    } else {
        note::fault("given up half way");
        let calls = if big { choice::pick(F, 6) } else { choice::size(F, 0, 200) };
        let mut io = Io::new(&data, s);
        for _ in 0..calls {
            let (n, m) = io.sizes();
            let st = if io.left() != 0 {
                io.call("encode", n, m, |i, io, o, oo| e.encode(i, io, o, oo))?
            } else {
                io.call("flush", 0, m, |_, _, o, oo| e.flush(o, oo))?
            };
            if io.left() == 0 && st.r == R::Success {
                break;
            }
        }
    }
    e.free();
    settle(&format!("{} compressor{}", if opts.internal { "internal" } else { "hybrid" }, if stop { " given up" } else { "" }))?;
    note::nontrivial();
    Ok(())
}
