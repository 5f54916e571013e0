//! C20: builds with other features.
use super::*;
use crate::builds::Build;

/// Both sides get exactly the same calls.
fn alike<T>(seed: u64, f: impl FnMut() -> T) -> T {
    choice::scoped(seed, f)
}
pub fn c20() -> Res<()> {
    let b = choice::pick_of(P, &[Build::Table, Build::Plain, Build::Blend]);
    note::desc(&format!("{:?}", b));
    if b == Build::Blend {
        blend()?;
        return end();
    }
    let seed = choice::pick(P, 1 << 40);
    match choice::weighted(P, &[3, 2, 3, 3, 1]) {
        0 => {
            // the same calls, the same bytes
            let data = gen::data(6_000);
            let opts = compress_plain(&data, Opts::draw(true))?.0;
            let s = Slicing::draw().tame(data.len());
            let mut e = entry::enc(Front::Rust, &opts, 1000, alloc::NO_ALLOC);
            let want = alike(seed, || compress_with(&mut *e, &data, &s))?;
            e.free();
            let mut e = b.enc(&opts, 2000);
            let got = alike(seed, || compress_with(&mut *e, &data, &s))?;
            e.free();
            if got != want {
                return v("other-bytes", format!("{:?} makes {} bytes of {}, the usual build {}", b, got.len(), data.len(), want.len()));
            }
        },
        1 => {
            let mut opts = Opts::draw(true);
            opts.internal = true;
            let window = choice::pick_of(P, &[10u32, 10, 11, 12, 16]);
            opts.window = Some(window as i32);
            let (cmds, _) = commands::sequence_of(window, 300, 20_000, 0, 0);
            if !cmds.is_empty() {
                let mut e = entry::cmd_enc(&opts, 1000);
                let want = alike(seed, || commands::feed("encode_commands", &mut *e, &cmds, &Mode::Whole, 1 << 16))?;
                e.free();
                let mut e = b.cmd_enc(&opts, 2000);
                let got = alike(seed, || commands::feed("encode_commands", &mut *e, &cmds, &Mode::Whole, 1 << 16))?;
                e.free();
                if got != want {
                    return v("other-bytes", format!("{:?} makes {} bytes of {} commands, the usual build {}", b, got.len(), cmds.len(), want.len()));
                }
            }
        },
        2 => {
            // what the usual build made
            let val = valid(6_000, true)?;
            let s = Slicing::draw().tame(val.data.len());
            let multi = b.threads() && choice::chance(P, 1, 2);
            let mut d = b.dec(choice::chance(P, 1, 8), multi, 2000);
            let o = decompress_with(&mut *d, &val.bytes, &s, RUNAWAY)?;
            d.free();
            expect_data("the other build", &o, &val.data, val.bytes.len())?;
        },
        3 => {
            // on a damaged stream the answers are the same, call for call
            let mut bytes = valid(6_000, true)?.bytes;
            hostile::or_damage(&mut bytes)?;
            let s = Slicing::draw().tame(10_000);
            let skip = choice::chance(P, 1, 4);
            let mut d = entry::dec(Front::Rust, skip, false, 1000, alloc::NO_ALLOC);
            let want = alike(seed, || decompress_with(&mut *d, &bytes, &s, 100_000))?;
            d.free();
            let mut d = b.dec(skip, false, 2000);
            let got = alike(seed, || decompress_with(&mut *d, &bytes, &s, 100_000))?;
            d.free();
            if got != want {
                return v("other-answers", format!("a damaged stream: {:?} with {} bytes and {:?} in {} calls, {:?} with {} in the usual build, {} calls",
                    got.end, got.out.len(), b, got.calls, want.end, want.out.len(), want.calls));
            }
        },
        _ => golden::old(&|skip, multi| b.dec(skip, multi && b.threads(), 2000))?,
    }
    end()
}
fn end() -> Res<()> {
    if let Some(w) = sched::quiesce() {
        return v("worker-left", w);
    }
    note::nontrivial();
    Ok(())
}
/// Its format is its own: it is to read what it wrote, and not to take it for
/// anything else when damaged.
fn blend() -> Res<()> {
    let b = Build::Blend;
    let (data, mut bytes);
    if choice::chance(P, 1, 3) {
        let mut opts = Opts::draw(true);
        opts.internal = true;
        let window = choice::pick_of(P, &[10u32, 10, 11, 12, 16]);
        opts.window = Some(window as i32);
        let (cmds, meaning) = commands::sequence_of(window, 300, 20_000, 0, 0);
        if cmds.is_empty() {
            return Ok(());
        }
        let mode = Mode::draw(400);
        let mut e = b.cmd_enc(&opts, 2000);
        bytes = commands::feed("encode_commands", &mut *e, &cmds, &mode, 1 << 16)?;
        e.free();
        data = meaning;
    } else {
        data = gen::data(6_000);
        let opts = compress_plain(&data, Opts::draw(true))?.0;
        let mut e = b.enc(&opts, 2000);
        bytes = compress_with(&mut *e, &data, &Slicing::draw().tame(data.len()))?;
        e.free();
    }
    let damaged = choice::chance(F, 1, 4);
    if damaged {
        damage(&mut bytes);
    }
    let mut d = b.dec(!damaged && choice::chance(P, 1, 8), choice::chance(P, 1, 2), 2000);
    let o = decompress_with(&mut *d, &bytes, &Slicing::draw().tame(data.len()), if damaged { 100_000 } else { RUNAWAY })?;
    d.free();
    match (damaged, &o.end) {
        (false, _) => expect_data("the blending build", &o, &data, bytes.len()),
        (true, End::Done(_)) if o.out != data => v("damage-accepted", format!("{} bytes for {}, and success", o.out.len(), data.len())),
        _ => Ok(()),
    }
}
