//! The calls themselves: what their answers mean, the C functions against the
//! Rust ones, several instances at a time.
use super::*;
use crate::entry::{self as door, Enc, Opaque, R};
use std::ptr::{null, null_mut};

/// A caller with one buffer on each side who does what the last answer said
/// and nothing else: reads on when input is asked for, empties the output when
/// room is asked for.
struct Literal<'a> {
    data: &'a [u8],
    /// the part of the data in the input buffer, and how much of it is taken
    from: usize,
    to: usize,
    off: usize,
    ibuf: usize,
    out: Vec<u8>,
    buf: Vec<u8>,
    ooff: usize,
    calls: u64,
    idle: u32,
}
const MARK: u8 = 0x3d;
impl<'a> Literal<'a> {
    fn new(data: &'a [u8]) -> Literal<'a> {
        let tame = data.len() > 6_000;
        let size = |floor: usize| choice::pick_of(P, &[4096usize, 65536, 1000, 256, 64, 17, 16, 15, 8, 7, 5, 3, 2, 1]).max(if tame { floor } else { 1 });
        let (ibuf, obuf) = (size(24), size(64));
        note::desc(&format!("buffers of {} and {}", ibuf, obuf));
        Literal { data, from: 0, to: 0, off: 0, ibuf, out: Vec::new(), buf: vec![MARK; obuf + 32], ooff: 0, calls: 0, idle: 0 }
    }
    fn room(&self) -> usize {
        self.buf.len() - 32
    }
    fn call(&mut self, who: &str, f: impl FnOnce(&[u8], &mut usize, &mut [u8], &mut usize) -> R) -> Res<R> {
        self.calls += 1;
        sched::client_step();
        let input = &self.data[self.from..self.to];
        let room = self.buf.len() - 32;
        let (i0, o0) = (self.off, self.ooff);
        let keep = self.buf[..o0].to_vec();
        let (mut io, mut oo) = (i0, o0);
        let r = match crate::panics::catch(|| f(input, &mut io, &mut self.buf[..room], &mut oo)) {
            Ok(r) => r,
            Err(m) => return v("panic", format!("{} panicked in call {}: {}", who, self.calls, m)),
        };
        if io < i0 || io > input.len() || oo < o0 || oo > room {
            return v("offset-range", format!("{}: offsets went from {} to {} of {} and from {} to {} of {}", who, i0, io, input.len(), o0, oo, room));
        }
        if self.buf[..o0] != keep[..] || self.buf[room..].iter().any(|b| *b != MARK) {
            return v("stray-write", format!("{}: call {} wrote outside the room it had", who, self.calls));
        }
        if io == i0 && oo == o0 {
            self.idle += 1;
        } else {
            self.idle = 0;
            sched::progress();
        }
        if self.idle > PATIENCE {
            return v("no-progress", format!("{}: {} calls without progress by doing what they say, last {:?} with {} bytes of input and room for {}, at {} of {}", who, self.idle, r, input.len() - io, room - oo, self.from + io, self.data.len()));
        }
        note::print((io as u64) << 32 | oo as u64);
        self.off = io;
        self.ooff = oo;
        match r {
            R::NeedIn if io != input.len() => return v("need-input-unread", format!("{}: asked for more input with {} bytes unread", who, input.len() - io)),
            R::NeedOut if oo != room => note::probe("room asked for with room left"),
            R::NeedIn if oo != room => note::probe("input asked for with room left"),
            R::NeedIn => note::probe("input asked for with the output full"),
            _ => {},
        }
        Ok(r)
    }
    /// False at the end of the data.
    fn refill(&mut self) -> bool {
        self.from = self.to;
        self.off = 0;
        self.to = (self.to + self.ibuf).min(self.data.len());
        self.from != self.to
    }
    fn drain(&mut self) {
        self.out.extend_from_slice(&self.buf[..self.ooff]);
        for b in self.buf[..self.ooff].iter_mut() {
            *b = MARK;
        }
        self.ooff = 0;
    }
}
fn literal_encode(e: &mut dyn Enc, data: &[u8]) -> Res<Vec<u8>> {
    let mut c = Literal::new(data);
    let mut more = c.refill();
    while more {
        match c.call("encode", |i, io, o, oo| e.encode(i, io, o, oo))? {
            R::NeedIn => more = c.refill(),
            R::NeedOut => c.drain(),
            r => return v("encode-failed", format!("encode answered {:?} at byte {} of {}", r, c.from + c.off, data.len())),
        }
    }
    c.idle = 0;
    loop {
        let r = c.call("flush", |_, _, o, oo| e.flush(o, oo))?;
        match r {
            R::Success => {
                c.drain();
                return Ok(c.out);
            },
            R::NeedOut => c.drain(),
            r => return v("flush-failed", format!("flush answered {:?} after {} bytes", r, c.out.len())),
        }
        if c.out.len() > RUNAWAY {
            return v("runaway", "flush never ends");
        }
    }
}
fn literal_decode(d: &mut dyn Dec, bytes: &[u8], want: &[u8], damaged: bool) -> Res<()> {
    let mut c = Literal::new(bytes);
    c.refill();
    let end = loop {
        match c.call("decode", |i, io, o, oo| d.decode(i, io, o, oo))? {
            R::NeedIn => if !c.refill() {
                break None;
            },
            R::NeedOut => c.drain(),
            R::Success => break Some(true),
            R::Fail(m) => {
                note::desc(&m);
                break Some(false);
            },
        }
        if c.out.len() > 200_000.max(2 * want.len()) {
            break None;
        }
    };
    let at = c.from + c.off;
    c.drain();
    if damaged {
        return match end {
            Some(true) if c.out != want => v("damage-taken", format!("success on a damaged stream: {}", diff(&c.out, want))),
            _ => Ok(()),
        };
    }
    match end {
        Some(true) if c.out != want => v("wrong-data", format!("success with different bytes: {}", diff(&c.out, want))),
        Some(true) if at != bytes.len() => v("end-position", format!("success after {} of the stream's {} bytes", at, bytes.len())),
        Some(true) => Ok(()),
        Some(false) => v("not-decoded", format!("failure after {} of {} bytes", c.out.len(), want.len())),
        None => v("not-decoded", format!("the stream ran out after {} of {} bytes of output", c.out.len(), want.len())),
    }
}

// C16: doing what the answers say leads to the end
pub fn c16() -> Res<()> {
    let f = front();
    if choice::chance(P, 1, 3) {
        let data = gen::data(12_000);
        let opts = Opts::draw(true);
        let mut e = entry::enc(f, &opts, 1000, calloc_for(f));
        let bytes = match literal_encode(&mut *e, &data) {
            Err(bad) if in_brotli(&bad) => {
                note::probe("brotli panicked");
                return Ok(());
            },
            r => r?,
        };
        e.free();
        let o = decode(Front::Rust, false, false, 10, &bytes, &Slicing::whole(1 << 16), RUNAWAY)?;
        expect_data("decoder", &o, &data, bytes.len())?;
        note::nontrivial();
        return Ok(());
    }
    let val = valid(12_000, true)?;
    let multi = choice::chance(P, 1, 2);
    let mut bytes = val.bytes.clone();
    let damaged = choice::chance(F, 1, 4);
    if damaged {
        damage(&mut bytes);
    }
    let mut d = entry::dec(f, !damaged && choice::chance(P, 1, 5), multi, 10, calloc_for(f));
    literal_decode(&mut *d, &bytes, &val.data, damaged && bytes != val.bytes)?;
    if let Err(m) = crate::panics::catch(|| d.free()) {
        return v("panic", format!("free panicked: {}", m));
    }
    note::nontrivial();
    Ok(())
}

// ---- C17: the C functions ----
/// Two answers to the same call.
fn agree(what: &str, a: &Step, b: &Step, ia: &Io, ib: &Io) -> Res<()> {
    let plain = |r: &R| match r {
        R::Fail(_) => R::Fail(String::new()),
        r => r.clone(),
    };
    if plain(&a.r) != plain(&b.r) || a.took != b.took || a.gave != b.gave || ia.out[ia.out.len() - a.gave..] != ib.out[ib.out.len() - b.gave..] {
        return v("interfaces-differ", format!("{} call {}: the C function answered {:?}, took {}, gave {}; the Rust one {:?}, {}, {}{}", what, ia.calls, a.r, a.took, a.gave, b.r, b.took, b.gave,
            if a.gave == b.gave { "" } else { "" }));
    }
    Ok(())
}
const FAILURE: u8 = 3;
/// Selectors and values nothing stands for.
fn nonsense() -> (u8, u32) {
    match choice::pick(F, 7) {
        0 => (choice::pick_of(F, &[0u8, 21, 22, 64, 127, 128, 255]), choice::pick(F, 3) as u32),
        1 => (5, 3 + choice::pick(F, 300) as u32),
        2 => (6, choice::pick_of(F, &[0, 2, 3, 257])),
        3 => (7, choice::pick_of(F, &[2, 3, 256, u32::MAX])),
        4 => (9, choice::pick_of(F, &[9, 10, 16, 257, u32::MAX])),
        _ => (choice::pick_of(F, &[8u8, 12, 13, 14]), choice::pick_of(F, &[16, 17, 100, 257, u32::MAX])),
    }
}
/// Something valid that a later setting of the same selector replaces.
fn earlier(sel: u8, r: &mut choice::Rng) -> u32 {
    match sel {
        1 => 2 + r.below(9) as u32,
        2 => 10 + r.below(12) as u32,
        3 => 16 + r.below(4) as u32,
        4 | 10 | 11 | 16 => r.below(3) as u32,
        5 => r.below(3) as u32,
        6 => 1,
        7 | 17 | 18 => r.below(2) as u32,
        9 => r.below(9) as u32,
        8 | 12 | 13 | 14 => r.below(15) as u32,
        15 => 100 + r.below(1000) as u32,
        19 => r.below(4) as u32,
        _ => 0,
    }
}
fn refuse(what: &str, code: u8) -> Res<()> {
    note::fault("misuse");
    if code != FAILURE {
        return v("misuse-accepted", format!("{} answered {}", what, code));
    }
    Ok(())
}
fn misuse_encoder(s: *mut Opaque, started: bool) -> Res<()> {
    let (mut i, mut o) = (0usize, 0usize);
    let input = [1u8, 2, 3, 4];
    let mut room = [MARK; 64];
    unsafe {
        match choice::pick(F, 7) {
            0 => refuse("encode without a state", door::divans_encode(null_mut(), input.as_ptr(), 4, &mut i, room.as_mut_ptr(), 64, &mut o))?,
            1 => refuse("encode without an input offset", door::divans_encode(s, input.as_ptr(), 4, null_mut(), room.as_mut_ptr(), 64, &mut o))?,
            2 => refuse("encode without an output offset", door::divans_encode(s, input.as_ptr(), 4, &mut i, room.as_mut_ptr(), 64, null_mut()))?,
            3 => refuse("flush without an output offset", door::divans_encode_flush(s, room.as_mut_ptr(), 64, null_mut()))?,
            4 => refuse("flush without a state", door::divans_encode_flush(null_mut(), room.as_mut_ptr(), 64, &mut o))?,
            5 => refuse("an option without a state", door::divans_set_option(null_mut(), 1, 5))?,
            _ => {
                let (sel, val) = if started && choice::chance(F, 1, 2) { (1, 9) } else { nonsense() };
                refuse(&format!("option {} = {}{}", sel, val, if started { " after the start" } else { "" }), door::divans_set_option(s, sel, val))?;
            },
        }
    }
    if i != 0 || o != 0 || room.iter().any(|b| *b != MARK) {
        return v("misuse-moved", "a refused call moved an offset or wrote output");
    }
    Ok(())
}
fn misuse_decoder(s: *mut Opaque) -> Res<()> {
    let (mut i, mut o) = (0usize, 0usize);
    let input = [1u8, 2, 3, 4];
    let mut room = [MARK; 64];
    unsafe {
        match choice::pick(F, 3) {
            0 => refuse("decode without a state", door::divans_decode(null_mut(), input.as_ptr(), 4, &mut i, room.as_mut_ptr(), 64, &mut o))?,
            1 => refuse("decode without an input offset", door::divans_decode(s, input.as_ptr(), 4, null_mut(), room.as_mut_ptr(), 64, &mut o))?,
            _ => refuse("decode without an output offset", door::divans_decode(s, input.as_ptr(), 4, &mut i, room.as_mut_ptr(), 64, null_mut()))?,
        }
    }
    if i != 0 || o != 0 || room.iter().any(|b| *b != MARK) {
        return v("misuse-moved", "a refused call moved an offset or wrote output");
    }
    Ok(())
}
/// The allocation helpers come out of the caller's allocator.
fn helpers(s: *mut Opaque, enc: bool, custom: bool) -> Res<()> {
    let n = choice::size(F, 1, 5000) as usize;
    let wide = choice::chance(F, 1, 2);
    let before = alloc::c_live();
    unsafe {
        let p = match (enc, wide) {
            (true, false) => door::divans_compressor_malloc_u8(s, n),
            (true, true) => door::divans_compressor_malloc_usize(s, n) as *mut u8,
            (false, false) => door::divans_decompressor_malloc_u8(s, n),
            (false, true) => door::divans_decompressor_malloc_usize(s, n) as *mut u8,
        };
        let bytes = if wide { n * std::mem::size_of::<usize>() } else { n };
        if p.is_null() {
            return v("helper", format!("no memory for {} bytes", bytes));
        }
        if custom {
            let now = alloc::c_live();
            if now.0 != before.0 + 1 || now.1 != before.1 + bytes {
                return v("helper", format!("a block of {} bytes was asked for, the caller's allocator gave {} blocks and {} bytes", bytes, now.0 as i64 - before.0 as i64, now.1 as i64 - before.1 as i64));
            }
        }
        std::ptr::write_bytes(p, 0x77, bytes);
        match (enc, wide) {
            (true, false) => door::divans_compressor_free_u8(s, p, n),
            (true, true) => door::divans_compressor_free_usize(s, p as *mut usize, n),
            (false, false) => door::divans_decompressor_free_u8(s, p, n),
            (false, true) => door::divans_decompressor_free_usize(s, p as *mut usize, n),
        }
        if custom && alloc::c_live() != before {
            return v("helper", "the block was not given back to the caller's allocator");
        }
    }
    note::probe("allocation helper");
    Ok(())
}
fn no_memory(custom: alloc::CAllocator, enc: bool) -> Res<()> {
    // the state itself is the only block whose failure can be told
    alloc::c_fail_next(1);
    note::fault("allocation failed");
    let s = unsafe { if enc { door::divans_new_compressor_with_custom_alloc(custom) } else { door::divans_new_decompressor_with_custom_alloc(custom, 0, choice::pick(P, 2) as u8) } };
    if !s.is_null() {
        return v("no-memory", "a state although there was no memory for it");
    }
    Ok(())
}
fn books_closed() -> Res<()> {
    let h = alloc::c_take();
    if let Some(w) = h.wrong.first() {
        return v("wrong-free", w.clone());
    }
    if !h.outstanding().is_empty() {
        return v("not-returned", format!("{} blocks never came back", h.outstanding().len()));
    }
    Ok(())
}
pub fn c17() -> Res<()> {
    if !door::HEADER.is_empty() {
        return v("header", format!("the C header does not fit the functions: {}", door::HEADER));
    }
    if door::meanings() != [0, 1, 2, FAILURE] {
        return v("header", format!("the C header's answers are {:?}", door::meanings()));
    }
    let custom = choice::chance(P, 1, 2);
    let ca = if custom { alloc::c_heap(0) } else { alloc::NO_ALLOC };
    if custom && choice::chance(F, 1, 12) {
        no_memory(ca, choice::chance(P, 1, 2))?;
        note::nontrivial();
        return books_closed();
    }
    let skip = choice::chance(P, 1, 4);
    if choice::chance(P, 1, 2) {
        return c17_encoder(ca, custom);
    }
    // decoding, call by call
    let val = valid(8_000, true)?;
    let mut bytes = val.bytes.clone();
    if choice::chance(F, 1, 3) {
        damage(&mut bytes);
    }
    let s = Slicing::draw().tame(val.data.len());
    let by_default = !custom && !skip && choice::chance(P, 1, 2);
    let c = unsafe {
        if by_default { door::divans_new_serial_decompressor() } else { door::divans_new_decompressor_with_custom_alloc(ca, if skip { choice::pick_of(P, &[1u8, 2, 255]) } else { 0 }, 0) }
    };
    let mut cd = entry::CDec(c);
    let mut rd = entry::dec(Front::Rust, skip, false, 10, alloc::NO_ALLOC);
    let mut ia = Io::new(&bytes, s.clone());
    let mut ib = Io::new(&bytes, s);
    let mut after = 0;
    loop {
        if choice::chance(F, 1, 6) {
            misuse_decoder(c)?;
        }
        if choice::chance(F, 1, 20) {
            helpers(c, false, custom)?;
        }
        let (n, m) = ia.sizes();
        let a = if n == 0 && choice::chance(F, 1, 3) {
            // nothing at all may be a null pointer
            ia.call("decode (C)", 0, m, |_, io, o, oo| {
                let mut at = 0;
                let r = unsafe { door::divans_decode(c, null(), 0, &mut at, o.as_mut_ptr(), o.len(), oo) };
                *io += at;
                code(r)
            })?
        } else {
            ia.call("decode (C)", n, m, |i, io, o, oo| cd.decode(i, io, o, oo))?
        };
        let b = ib.call("decode", n, m, |i, io, o, oo| rd.decode(i, io, o, oo))?;
        agree("decode", &a, &b, &ia, &ib)?;
        match a.r {
            R::Success | R::Fail(_) => after += 1,
            R::NeedIn if ia.left() == 0 => after += 1,
            _ => {},
        }
        if after > 2 || ia.idle > PATIENCE || ia.out.len() > 200_000 {
            break;
        }
    }
    Box::new(cd).free();
    rd.free();
    note::nontrivial();
    books_closed()
}
fn code(r: u8) -> R {
    match r {
        0 => R::Success,
        1 => R::NeedIn,
        2 => R::NeedOut,
        x => R::Fail(x.to_string()),
    }
}
fn c17_encoder(ca: alloc::CAllocator, custom: bool) -> Res<()> {
    let data = gen::data(8_000);
    let opts = Opts::draw(true);
    let s = Slicing::draw().tame(data.len());
    let c = unsafe { if custom { door::divans_new_compressor_with_custom_alloc(ca) } else { door::divans_new_compressor() } };
    let set = |sel: u8, val: u32| {
        let r = unsafe { door::divans_set_option(c, sel, val) };
        if r == 0 { Ok(()) } else { v("option-refused", format!("option {} = {} answered {}", sel, val, r)) }
    };
    let mut r = choice::Rng::new(choice::pick(P, 1 << 40));
    let finals = opts.c();
    for (sel, val) in &finals {
        if choice::chance(F, 1, 5) {
            misuse_encoder(c, false)?;
        }
        if choice::chance(P, 1, 4) {
            set(*sel, earlier(*sel, &mut r))?;
            note::probe("option set twice");
        }
        set(*sel, *val)?;
    }
    if choice::chance(F, 1, 5) {
        misuse_encoder(c, false)?;
    }
    let mut ce = entry::CEnc(c);
    let mut re = entry::enc(Front::Rust, &opts, 1000, alloc::NO_ALLOC);
    let mut ia = Io::new(&data, s.clone());
    let mut ib = Io::new(&data, s);
    let mut ends = 0;
    loop {
        if ia.calls != 0 && choice::chance(F, 1, 6) {
            misuse_encoder(c, true)?;
        }
        if choice::chance(F, 1, 20) {
            helpers(c, true, custom)?;
        }
        let (n, m) = ia.sizes();
        let (a, b) = if ia.left() != 0 {
            let b = match ib.call("encode", n, m, |i, io, o, oo| re.encode(i, io, o, oo)) {
                Err(bad) if in_brotli(&bad) => {
                    // the C function would abort on it
                    note::probe("brotli panicked");
                    return Ok(());
                },
                r => r?,
            };
            (ia.call("encode (C)", n, m, |i, io, o, oo| ce.encode(i, io, o, oo))?, b)
        } else {
            let b = match ib.call("flush", 0, m, |_, _, o, oo| re.flush(o, oo)) {
                Err(bad) if in_brotli(&bad) => {
                    note::probe("brotli panicked");
                    return Ok(());
                },
                r => r?,
            };
            (ia.call("flush (C)", 0, m, |_, _, o, oo| ce.flush(o, oo))?, b)
        };
        agree("compression", &a, &b, &ia, &ib)?;
        match a.r {
            R::Success => ends += 1,
            R::Fail(_) => return v("encode-failed", "both interfaces failed"),
            _ => {},
        }
        if ends > 1 {
            break;
        }
        if ia.idle > PATIENCE {
            return v("no-progress", "compression stands still");
        }
    }
    Box::new(ce).free();
    re.free();
    let o = decode(Front::Rust, false, false, 10, &ia.out, &Slicing::whole(1 << 16), RUNAWAY)?;
    expect_data("decoder", &o, &data, ia.out.len())?;
    note::nontrivial();
    books_closed()
}

// ---- C18: several at a time ----
enum Job {
    Enc { e: Option<Box<dyn Enc>>, io: Io<'static>, opts: Opts, data: Vec<u8> },
    Dec { d: Option<Box<dyn Dec>>, io: Io<'static>, want: Option<Vec<u8>>, bytes: Vec<u8>, multi: bool },
}
// C18: instances do not disturb one another
pub fn c18() -> Res<()> {
    let n = 2 + choice::pick(P, 3) as usize;
    let ca = alloc::c_heap(0);
    let mut jobs: Vec<Option<Job>> = Vec::new();
    // everything lives as long as the process; it is not much
    let keep = |v: Vec<u8>| -> &'static [u8] { Box::leak(v.into_boxed_slice()) };
    let mut kept: Vec<*mut [u8]> = Vec::new();
    // what one decoder remembers would not be found out by one doing something else
    let alike = choice::chance(P, 2, 5);
    let mut model: Option<(Valid, Slicing)> = None;
    for k in 0..n {
        let f = front();
        let id = 100 * (k as u32 + 1);
        if !alike && choice::chance(P, 1, 3) {
            let data = gen::data(4_000);
            let opts = Opts::draw(true);
            let s = Slicing::draw().tame(data.len());
            let d = keep(data.clone());
            kept.push(d as *const [u8] as *mut [u8]);
            jobs.push(Some(Job::Enc { e: Some(entry::enc(f, &opts, id, ca)), io: Io::new(d, s), opts, data }));
        } else {
            let (val, s) = match model.take() {
                Some(m) => m,
                None => {
                    let val = valid(4_000, true)?;
                    let s = Slicing::draw().tame(val.data.len());
                    (val, s)
                },
            };
            let mut bytes = val.bytes.clone();
            let damaged = choice::chance(F, 1, 4);
            if damaged {
                damage(&mut bytes);
            }
            let multi = choice::chance(P, 1, if alike { 4 } else { 2 });
            if alike {
                let s = if choice::chance(P, 1, 2) { Slicing::draw().tame(val.data.len()) } else { s.clone() };
                model = Some((val.clone(), s));
            }
            let b = keep(bytes.clone());
            kept.push(b as *const [u8] as *mut [u8]);
            jobs.push(Some(Job::Dec { d: Some(entry::dec(f, false, multi, id, ca)), io: Io::new(b, s), want: if damaged { None } else { Some(val.data.clone()) }, bytes, multi }));
        }
    }
    let r = round(&mut jobs);
    drop(jobs);
    for p in kept {
        drop(unsafe { Box::from_raw(p) });
    }
    r?;
    if let Some(w) = sched::quiesce() {
        return v("worker-left", w);
    }
    note::nontrivial();
    books_closed()
}
fn round(jobs: &mut [Option<Job>]) -> Res<()> {
    let mut alive = jobs.len();
    let stay = choice::pick_of(P, &[1u64, 1, 3, 20]);
    let mut k = 0;
    while alive != 0 {
        if choice::chance(Stream::Chunk, 1, stay) {
            k = choice::pick(Stream::Chunk, jobs.len() as u64) as usize;
        }
        while jobs[k].is_none() {
            k = (k + 1) % jobs.len();
        }
        sched::client_step();
        let mut over = false;
        match jobs[k].as_mut().unwrap() {
            Job::Enc { e, io, opts, data } => {
                let (n, m) = io.sizes();
                let enc = e.as_mut().unwrap();
                let st = if io.left() != 0 {
                    io.call("encode", n, m, |i, p, o, oo| enc.encode(i, p, o, oo))?
                } else {
                    io.call("flush", 0, m, |_, _, o, oo| enc.flush(o, oo))?
                };
                match st.r {
                    R::Fail(m) => return v("encode-failed", format!("compressor {}: {}", k, m)),
                    R::Success => {
                        e.take().unwrap().free();
                        // alone, with the same calls
                        let mut solo = entry::enc(Front::Rust, opts, 1000, alloc::NO_ALLOC);
                        let script = Slicing { script: Some(std::rc::Rc::new(io.log.clone())), ..io.s.clone() };
                        let want = compress_with(&mut *solo, data, &script)?;
                        solo.free();
                        if want != io.out {
                            return v("disturbed", format!("compressor {} made other bytes than alone: {}", k, diff(&io.out, &want)));
                        }
                        over = true;
                    },
                    _ => {},
                }
                if io.idle > PATIENCE {
                    return v("no-progress", format!("compressor {} stands still", k));
                }
            },
            Job::Dec { d, io, want, bytes, multi } => {
                let (n, m) = io.sizes();
                let dec = d.as_mut().unwrap();
                let st = io.call("decode", n, m, |i, p, o, oo| dec.decode(i, p, o, oo))?;
                let end = match st.r {
                    R::Success => Some(End::Done(io.pos)),
                    R::Fail(m) => Some(End::Failed(m)),
                    R::NeedIn if io.left() == 0 && st.took == 0 && st.gave == 0 && st.offered_out != 0 => Some(End::Hungry),
                    _ if io.out.len() > 200_000 => Some(End::Enough),
                    _ => None,
                };
                if io.idle > PATIENCE {
                    return v("no-progress", format!("decoder {} stands still", k));
                }
                if let Some(end) = end {
                    if let Err(m) = crate::panics::catch(|| d.take().unwrap().free()) {
                        return v("panic", format!("free panicked: {}", m));
                    }
                    match want {
                        Some(w) => if end != End::Done(bytes.len()) || io.out != *w {
                            return v("disturbed", format!("decoder {}{}: {:?} at {} of {}, {}", k, if *multi { " (multithreaded)" } else { "" }, end, io.pos, bytes.len(), diff(&io.out, w)));
                        },
                        None => {
                            let solo = decode(Front::Rust, false, false, 1000, bytes, &Slicing::whole(1 << 16), 200_000)?;
                            let good = |e: &End| matches!(e, End::Done(_));
                            let l = io.out.len().min(solo.out.len());
                            if good(&end) != good(&solo.end) && end != End::Enough && solo.end != End::Enough || io.out[..l] != solo.out[..l] {
                                return v("disturbed", format!("decoder {}: {:?} and alone {:?}, {}", k, end, solo.end, diff(&io.out, &solo.out)));
                            }
                        },
                    }
                    over = true;
                }
            },
        }
        if over {
            jobs[k] = None;
            alive -= 1;
        }
    }
    Ok(())
}
