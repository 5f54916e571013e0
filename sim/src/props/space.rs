//! C21: how much comes out.
use super::*;

pub fn c21() -> Res<()> {
    let mut opts = Opts::draw(choice::chance(P, 1, 2));
    // models that are told to learn as fast as they can, learn nothing from noise
    opts.adaptation = None;
    let kind = choice::weighted(P, &[3, 5, 2]);
    let (data, most);
    if kind == 1 {
        opts.internal = false;
        let w = if choice::chance(P, 1, 12) { 18 + choice::pick(P, 3) } else { 10 + choice::pick(P, 8) };
        opts.window = Some(w as i32);
        // brotli's own tables forget what is further back
        let far = 1u64 << (w - 2).min(15);
        let p = if choice::chance(P, 1, 4) { 1 + choice::pick(P, far) } else { choice::size(P, 1, far) } as usize;
        // whatever else is asked for
        if choice::chance(P, 1, 3) {
            opts.lgblock = Some(choice::pick_of(P, &[16, 0, 1, 10, 12, 14, 15, 17, 18, 20, 24, 30]));
        }
        let times = 10 + choice::size(P, 0, if p > 10_000 { 2 } else { 20 }) as usize;
        let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
        let alphabet = 1 + r.below(256);
        let pattern: Vec<u8> = (0..p).map(|_| r.below(alphabet) as u8).collect();
        let mut d = Vec::with_capacity(p * times);
        for _ in 0..times {
            d.extend_from_slice(&pattern);
        }
        d.truncate(d.len() - r.below(p as u64) as usize);
        note::desc(&format!("{} bytes of a pattern of {}", d.len(), p));
        note::probe("a pattern repeated");
        most = d.len() / 2 + 500;
        data = d;
    } else if kind == 2 {
        let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
        let n = choice::size(P, 2000, 60_000) as usize;
        let k = 1 + r.below(16);
        let letters: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
        note::desc(&format!("{} bytes of {} kinds", n, k));
        note::probe("few kinds of byte");
        data = (0..n).map(|_| letters[r.below(k) as usize]).collect();
        most = n * 5 / 8 + 500;
    } else {
        data = if choice::chance(P, 1, 2) {
            gen::data(if choice::chance(P, 1, 6) { 300_000 } else { 40_000 })
        } else {
            let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
            let n = choice::size(P, 0, 100_000) as usize;
            note::desc(&format!("{} bytes of noise", n));
            (0..n).map(|_| r.next() as u8).collect()
        };
        note::probe("anything");
        most = data.len() + data.len() / 8 + 500;
    }
    let f = front();
    let s = Slicing::draw().tame(data.len());
    let mut e = entry::enc(f, &opts, 1000, calloc_for(f));
    let bytes = compress_with(&mut *e, &data, &s)?;
    e.free();
    if bytes.len() > most {
        return v("too-large", format!("{} bytes from {}, at most {} were to be expected", bytes.len(), data.len(), most));
    }
    note::nontrivial();
    Ok(())
}
