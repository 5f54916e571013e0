//! Clients: how a caller slices its calls, and what every call must keep to.

use crate::choice::{self, Stream};
use crate::entry::{Dec, Enc, R};
use crate::{note, panics, sched};

/// A property that did not hold.
#[derive(Clone, Debug)]
pub struct V {
    pub kind: String,
    pub detail: String,
}
pub type Res<T> = Result<T, V>;
pub fn v<T>(kind: &str, detail: impl Into<String>) -> Res<T> {
    Err(V { kind: kind.to_string(), detail: detail.into() })
}

#[derive(Clone, Debug)]
pub enum Mode {
    Whole,
    Fixed(usize),
    OneByte,
    Random(usize),
    /// now and then nothing at all
    Gaps(usize),
}
impl Mode {
    pub fn draw(limit: u64) -> Mode {
        use Stream::Plan as P;
        match choice::weighted(P, &[4, 4, 2, 5, 4]) {
            0 => Mode::Whole,
            1 => Mode::Fixed(choice::pick_of(P, &[65536usize, 4096, 1000, 256, 64, 17, 16, 7, 5, 3, 2]).min(limit as usize)),
            2 => Mode::OneByte,
            3 => Mode::Random(choice::size(P, 2, limit) as usize),
            _ => Mode::Gaps(choice::size(P, 2, limit) as usize),
        }
    }
    pub fn next(&self, left: usize) -> usize {
        use Stream::Chunk as C;
        match *self {
            Mode::Whole => left,
            Mode::Fixed(n) => n.min(left),
            Mode::OneByte => left.min(1),
            Mode::Random(n) => (1 + choice::pick(C, n as u64) as usize).min(left),
            Mode::Gaps(n) => match choice::weighted(C, &[5, 1, 2]) {
                0 => (1 + choice::pick(C, n as u64) as usize).min(left),
                1 => 0,
                _ => left,
            },
        }
    }
}

#[derive(Clone, Debug)]
pub struct Slicing {
    pub input: Mode,
    pub output: Mode,
    /// offer input as a growing prefix with a running offset
    pub running_offset: bool,
    pub out_base: usize,
    /// size of "the whole output buffer"
    pub room: usize,
    /// calls to repeat exactly: (input, room) of each
    pub script: Option<std::rc::Rc<Vec<(usize, usize)>>>,
}
impl Slicing {
    pub fn whole(room: usize) -> Slicing {
        Slicing { input: Mode::Whole, output: Mode::Whole, running_offset: false, out_base: 0, room, script: None }
    }
    pub fn draw() -> Slicing {
        let limit = if choice::chance(Stream::Plan, 1, 4) { 70_000 } else { 5_000 };
        let s = Slicing {
            input: Mode::draw(limit),
            output: Mode::draw(limit),
            running_offset: choice::chance(Stream::Plan, 1, 3),
            out_base: if choice::chance(Stream::Plan, 1, 3) { choice::pick(Stream::Plan, 40) as usize } else { 0 },
            room: 1 << 16,
            script: None,
        };
        note::desc(&format!("in {:?} out {:?}{}", s.input, s.output, if s.running_offset { " running offset" } else { "" }));
        s
    }
    /// One-byte slicing of long streams costs calls without telling more.
    pub fn tame(mut self, n: usize) -> Slicing {
        if n > 6_000 {
            if let Mode::OneByte = self.input {
                self.input = Mode::Random(40);
            }
            if let Mode::OneByte = self.output {
                self.output = Mode::Random(60);
            }
            if let Mode::Fixed(k) = self.output {
                if k < 16 && n > 30_000 {
                    self.output = Mode::Fixed(48);
                }
            }
        }
        if n > 40_000 {
            for m in [&mut self.input, &mut self.output].iter_mut() {
                match **m {
                    Mode::Fixed(k) if k < 200 => **m = Mode::Fixed(k + 200),
                    Mode::Random(k) if k < 300 => **m = Mode::Random(k + 300),
                    Mode::Gaps(k) if k < 300 => **m = Mode::Gaps(k + 300),
                    _ => {},
                }
            }
        }
        self
    }
}

const GUARD: usize = 32;
const FILL: u8 = 0xc7;
/// Consecutive calls with something offered on both sides that may pass
/// without progress.
pub const PATIENCE: u32 = 24;

/// Where a client is in its input and output.
pub struct Io<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub out: Vec<u8>,
    pub s: Slicing,
    pub calls: u64,
    pub idle: u32,
    pub need_in: u64,
    pub need_out: u64,
    buf: Vec<u8>,
    pub log: Vec<(usize, usize)>,
}
pub struct Step {
    pub r: R,
    pub offered_in: usize,
    pub offered_out: usize,
    pub took: usize,
    pub gave: usize,
}
impl<'a> Io<'a> {
    pub fn new(data: &'a [u8], s: Slicing) -> Io<'a> {
        Io { data, pos: 0, out: Vec::new(), s, calls: 0, idle: 0, need_in: 0, need_out: 0, buf: Vec::new(), log: Vec::new() }
    }
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    /// One call with `n` input bytes and `m` bytes of room.
    pub fn call(&mut self, who: &str, n: usize, m: usize, f: impl FnOnce(&[u8], &mut usize, &mut [u8], &mut usize) -> R) -> Res<Step> {
        self.calls += 1;
        self.log.push((n, m));
        let base = self.s.out_base;
        let len = base + m;
        if self.buf.len() < len + 2 * GUARD {
            self.buf = vec![FILL; len + 2 * GUARD];
        }
        let total = self.buf.len();
        for b in self.buf[..GUARD + base].iter_mut() {
            *b = FILL;
        }
        let tail_end = total.min(GUARD + len + GUARD);
        for b in self.buf[GUARD + len..tail_end].iter_mut() {
            *b = FILL;
        }
        let (input, start): (&[u8], usize) = if self.s.running_offset {
            (&self.data[..self.pos + n], self.pos)
        } else {
            (&self.data[self.pos..self.pos + n], 0)
        };
        let mut ioff = start;
        let mut ooff = base;
        let out = &mut self.buf[GUARD..GUARD + len];
        let r = match panics::catch(|| f(input, &mut ioff, out, &mut ooff)) {
            Ok(r) => r,
            Err(m) => return v("panic", format!("{} panicked in call {}: {}", who, self.calls, m)),
        };
        if ioff < start || ioff > input.len() {
            return v("offset-range", format!("{}: input offset went from {} to {} of {}", who, start, ioff, input.len()));
        }
        if ooff < base || ooff > len {
            return v("offset-range", format!("{}: output offset went from {} to {} of {}", who, base, ooff, len));
        }
        if self.buf[..GUARD + base].iter().any(|b| *b != FILL) || self.buf[GUARD + len..tail_end].iter().any(|b| *b != FILL) {
            return v("stray-write", format!("{}: wrote outside the offered output (call {})", who, self.calls));
        }
        let took = ioff - start;
        let gave = ooff - base;
        self.pos += took;
        self.out.extend_from_slice(&self.buf[GUARD + base..GUARD + ooff]);
        match r {
            R::NeedIn => self.need_in += 1,
            R::NeedOut => self.need_out += 1,
            _ => {},
        }
        if took != 0 || gave != 0 {
            sched::progress();
            self.idle = 0;
        } else if (n != 0 || self.left() == 0) && m != 0 {
            self.idle += 1;
        }
        note::print((took as u64) << 32 | gave as u64);
        Ok(Step { r, offered_in: n, offered_out: m, took, gave })
    }
    pub fn sizes(&self) -> (usize, usize) {
        if let Some(p) = self.scripted() {
            return (p.0.min(self.left()), p.1);
        }
        (self.s.input.next(self.left()), self.s.output.next(self.s.room))
    }
    fn scripted(&self) -> Option<(usize, usize)> {
        self.s.script.as_ref().map(|s| s.get(self.calls as usize).copied().unwrap_or((usize::MAX, self.s.room)))
    }
}

pub const RUNAWAY: usize = 96 << 20;

/// Compresses `data`; the compressor is left finished.
pub fn compress_with(e: &mut dyn Enc, data: &[u8], s: &Slicing) -> Res<Vec<u8>> {
    compress_cb(e, data, s, &mut || {})
}
pub fn compress_cb(e: &mut dyn Enc, data: &[u8], s: &Slicing, between: &mut dyn FnMut()) -> Res<Vec<u8>> {
    compress_log(e, data, s, between).map(|x| x.0)
}
/// Also gives the sizes of the calls made.
pub fn compress_log(e: &mut dyn Enc, data: &[u8], s: &Slicing, between: &mut dyn FnMut()) -> Res<(Vec<u8>, Vec<(usize, usize)>)> {
    let mut io = Io::new(data, s.clone());
    while io.left() != 0 {
        between();
        let (n, m) = io.sizes();
        let st = io.call("encode", n, m, |i, io, o, oo| e.encode(i, io, o, oo))?;
        match st.r {
            R::Fail(m) => return v("encode-failed", format!("encode failed at byte {} of {}: {}", io.pos, data.len(), m)),
            R::NeedIn if st.took != st.offered_in => return v("need-input-unread", format!("encode asked for more input with {} of {} bytes unread", st.offered_in - st.took, st.offered_in)),
            R::NeedOut if st.offered_out > st.gave => note::probe("encode left room and asked for more"),
            R::Success => return v("encode-success", "encode reported the end of the stream"),
            _ => {},
        }
        if io.idle > PATIENCE {
            return v("no-progress", format!("encode made no progress in {} calls at byte {} of {}", io.idle, io.pos, data.len()));
        }
    }
    flush_all(e, &mut io, between)?;
    note::probe_n("need-input answers", io.need_in);
    note::probe_n("need-output answers", io.need_out);
    Ok((io.out, io.log))
}
pub fn flush_all(e: &mut dyn Enc, io: &mut Io, between: &mut dyn FnMut()) -> Res<()> {
    io.idle = 0;
    loop {
        between();
        let m = io.scripted().map_or_else(|| io.s.output.next(io.s.room), |p| p.1);
        let before = io.pos;
        let st = io.call("flush", 0, m, |_, _, o, oo| e.flush(o, oo))?;
        debug_assert_eq!(before, io.pos);
        match st.r {
            R::Success => return Ok(()),
            R::Fail(m) => return v("flush-failed", format!("flush failed after {} bytes: {}", io.out.len(), m)),
            R::NeedIn => return v("flush-need-input", "flush asked for input"),
            R::NeedOut => {},
        }
        if io.idle > PATIENCE {
            return v("no-progress", format!("flush made no progress in {} calls after {} bytes", io.idle, io.out.len()));
        }
        if io.out.len() > RUNAWAY {
            return v("runaway", "flush never ends");
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// success, with this many input bytes consumed
    Done(usize),
    Failed(String),
    /// all input consumed and more is wanted
    Hungry,
    /// the output limit of the run was reached
    Enough,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub end: End,
    pub calls: u64,
    /// times more input was asked for with all of it taken
    pub asked: u64,
}

/// Decodes `data` until the decoder reports an end, or `limit` bytes came out.
pub fn decompress_with(d: &mut dyn Dec, data: &[u8], s: &Slicing, limit: usize) -> Res<Outcome> {
    decompress_cb(d, data, s, limit, u64::MAX, &mut || {})
}
pub fn decompress_cb(d: &mut dyn Dec, data: &[u8], s: &Slicing, limit: usize, max_calls: u64, between: &mut dyn FnMut()) -> Res<Outcome> {
    let mut io = Io::new(data, s.clone());
    let mut dry = 0;
    let mut asked = 0;
    let end = loop {
        between();
        sched::client_step();
        let (n, m) = io.sizes();
        let st = io.call("decode", n, m, |i, io, o, oo| d.decode(i, io, o, oo))?;
        match st.r {
            R::Success => break End::Done(io.pos),
            R::Fail(m) => break End::Failed(m),
            R::NeedIn => {
                if st.took != st.offered_in {
                    return v("need-input-unread", format!("decode asked for more input with {} of {} bytes unread (at byte {} of {})", st.offered_in - st.took, st.offered_in, io.pos, data.len()));
                }
                if io.left() == 0 {
                    asked += 1;
                    // one more chance, with room to spare
                    dry += 1;
                    if dry > 2 && st.gave == 0 && st.offered_out != 0 {
                        break End::Hungry;
                    }
                }
            },
            R::NeedOut => {
                if st.gave < st.offered_out && st.took == 0 && st.gave == 0 {
                    note::probe("decode asked for room it had");
                }
            },
        }
        if io.idle > PATIENCE {
            return v("no-progress", format!("decode made no progress in {} calls, at input {} of {}, output {}, last answer {:?}", io.idle, io.pos, data.len(), io.out.len(), st.r));
        }
        if io.out.len() > limit || io.calls > max_calls {
            break End::Enough;
        }
    };
    note::probe_n("need-input answers", io.need_in);
    note::probe_n("need-output answers", io.need_out);
    Ok(Outcome { out: io.out, end, calls: io.calls, asked })
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), n)
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}
