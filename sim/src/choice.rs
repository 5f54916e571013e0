//! The only source of nondeterminism in a simulated run.
//!
//! Every decision a run takes (workload shape, chunk sizes, injected faults,
//! thread interleaving) is drawn here, from one of a few independent streams
//! seeded from the run's seed, and recorded. A replay feeds the recorded
//! decisions back; past the end of a recorded stream the answer is 0, which by
//! convention is the plainest choice (no fault, stay on the same thread, the
//! smallest workload). That convention is what makes a trace minimisable.

use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stream {
    /// what is run: data, options, mode
    Plan = 0,
    /// how the client slices its calls
    Chunk = 1,
    /// injected faults
    Fault = 2,
    /// which simulated thread runs next
    Sched = 3,
}
pub const STREAMS: usize = 4;
pub const STREAM_NAMES: [&str; STREAMS] = ["plan", "chunk", "fault", "sched"];

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub type Trace = [Vec<u64>; STREAMS];

pub struct Choices {
    rng: [Rng; STREAMS],
    replay: Option<Trace>,
    pub log: Trace,
    /// every decision is also written here, for runs that kill the process
    stream: Option<std::fs::File>,
}

static CH: Mutex<Option<Choices>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Choices) -> R) -> R {
    let mut g = CH.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("no run in progress"))
}

/// Starts a run. `fixed` decides the whole run when given, the seed otherwise.
pub fn begin(seed: u64, fixed: Option<Trace>) {
    let mut base = Rng::new(seed);
    let rng = [Rng::new(base.next()), Rng::new(base.next()), Rng::new(base.next()), Rng::new(base.next())];
    let stream = std::env::var_os("DIVSIM_STREAM").and_then(|p| std::fs::File::create(p).ok());
    *CH.lock().unwrap_or_else(|e| e.into_inner()) = Some(Choices { rng, replay: fixed, log: Default::default(), stream });
}

/// Runs `f` with choices of its own, drawn from `seed` and not recorded.
pub fn scoped<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let mut base = Rng::new(seed);
    let rng = [Rng::new(base.next()), Rng::new(base.next()), Rng::new(base.next()), Rng::new(base.next())];
    let fresh = Choices { rng, replay: None, log: Default::default(), stream: None };
    let saved = CH.lock().unwrap_or_else(|e| e.into_inner()).replace(fresh);
    let r = f();
    *CH.lock().unwrap_or_else(|e| e.into_inner()) = saved;
    r
}

pub fn trace() -> Trace {
    with(|c| c.log.clone())
}

/// A decision in 0..n made by `decide`, or by the trace being replayed.
pub fn decide(s: Stream, n: u64, decide: impl FnOnce(&mut Rng) -> u64) -> u64 {
    with(|c| {
        let i = s as usize;
        let at = c.log[i].len();
        let v = match c.replay {
            Some(ref r) => {
                let v = r[i].get(at).copied().unwrap_or(0);
                if n == 0 { 0 } else { v.min(n - 1) }
            },
            None => decide(&mut c.rng[i]),
        };
        c.log[i].push(v);
        if let Some(f) = c.stream.as_mut() {
            use std::io::Write;
            let mut rec = [0u8; 9];
            rec[0] = i as u8;
            rec[1..].copy_from_slice(&v.to_le_bytes());
            let _ = f.write_all(&rec);
        }
        v
    })
}
/// Uniform in 0..n.
pub fn pick(s: Stream, n: u64) -> u64 {
    decide(s, n, |r| r.below(n))
}
/// True with probability num/den; false is the plain choice.
pub fn chance(s: Stream, num: u64, den: u64) -> bool {
    decide(s, 2, |r| (r.below(den) < num) as u64) != 0
}
/// Index drawn with the given weights.
pub fn weighted(s: Stream, weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    decide(s, weights.len() as u64, |r| {
        let mut x = r.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i as u64;
            }
            x -= w;
        }
        0
    }) as usize
}
/// A size in lo..=hi, small ones and powers of two more often.
pub fn size(s: Stream, lo: u64, hi: u64) -> u64 {
    lo + decide(s, hi - lo + 1, |r| {
        let span = hi - lo;
        if span == 0 {
            return 0;
        }
        let bits = 64 - span.leading_zeros() as u64;
        let k = r.below(bits + 1);
        let v = match r.below(4) {
            0 => (1u64 << k).wrapping_sub(1),
            1 => 1u64 << k,
            _ => r.below(1u64 << k.min(63)),
        };
        v.min(span)
    })
}
pub fn pick_of<T: Clone>(s: Stream, items: &[T]) -> T {
    items[pick(s, items.len() as u64) as usize].clone()
}
