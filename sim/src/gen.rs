//! Workloads: data and compressor options.
use crate::choice::{self, Rng, Stream};
use divans::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed, StrideSelection};

const WORDS: &[&str] = &[
    "time", "down", "life", "left", "back", "code", "data", "show", "only", "site", "city", "open", "just", "like",
    "free", "work", "text", "year", "over", "body", "love", "form", "book", "play", "live", "line", "help", "home",
    "side", "more", "word", "long", "them", "view", "find", "page", "days", "full", "head", "term", "each", "area",
    "from", "true", "mark", "able", "upon", "high", "date", "land", "news", "even", "next", "case", "both", "post",
    "used", "made", "hand", "here", "what", "name", "Link", "blog", "size", "base", "held", "make", "main", "user",
    "the", "of", "and", "to", "in", "a", "is", "that", "for", "it", "was", "as", "with", "be", "by", "on", "not",
    "which", "their", "would", "there", "people", "because", "information", "government", "international",
    "development", "university", "Alice", "Rabbit", "Queen", "</div>", "<span class=\"", "http://www.", ".com/",
    "function", "return", "number", "that the", "of the ", " and the ", "\n\n", "\r\n", ". ", ", ", "; ", "\u{901a}",
];

/// Bytes of one of several shapes, at most `max` of them.
pub fn data(max: u64) -> Vec<u8> {
    let kind = choice::weighted(Stream::Plan, &[8, 3, 3, 3, 3, 4, 4, 3, 2, 1, if max >= 10_000 { 2 } else { 0 }]);
    let n = if kind == 10 { 18_000 + choice::pick(Stream::Plan, 180_000) } else { choice::size(Stream::Plan, 0, max) } as usize;
    let mut r = Rng::new(choice::pick(Stream::Plan, 1 << 40));
    let d = make(kind, n, &mut r);
    crate::note::desc(&format!("{} bytes of {}", d.len(), KINDS[kind]));
    d
}
pub const KINDS: [&str; 11] = ["text", "one repeated byte", "random bytes", "a small alphabet", "a short period", "a mixture", "records", "noisy repeats", "ramps", "empty or tiny", "several metablocks"];

pub fn make(kind: usize, n: usize, r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    match kind {
        0 => while v.len() < n {
            let w = WORDS[(r.below(WORDS.len() as u64).min(r.below(WORDS.len() as u64 * 2))) as usize];
            v.extend_from_slice(w.as_bytes());
            if r.below(8) != 0 {
                v.push(b' ');
            }
            if r.below(40) == 0 {
                v.extend_from_slice(format!("{}", r.below(100000)).as_bytes());
            }
        },
        1 => {
            let b = r.next() as u8;
            v.resize(n, b);
        },
        2 => while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        },
        3 => {
            let k = 2 + r.below(14);
            let base = r.next() as u8;
            while v.len() < n {
                v.push(base.wrapping_add((r.below(k)) as u8));
            }
        },
        4 => {
            let p = 1 + r.below(70) as usize;
            let pat: Vec<u8> = (0..p).map(|_| r.next() as u8).collect();
            while v.len() < n {
                v.extend_from_slice(&pat);
            }
        },
        5 => while v.len() < n {
            let k = r.below(9) as usize;
            let m = 1 + r.below(1 + n as u64 / 3) as usize;
            let part = make(if k == 5 { 0 } else { k }, m, r);
            v.extend_from_slice(&part);
            if !v.is_empty() && r.below(2) == 0 {
                // a far copy of something seen before
                let from = r.below(v.len() as u64) as usize;
                let len = (1 + r.below(4000) as usize).min(v.len() - from);
                let piece = v[from..from + len].to_vec();
                v.extend_from_slice(&piece);
            }
        },
        6 => {
            let w = 2 + r.below(7) as usize;
            let mut cur: Vec<u32> = (0..w).map(|_| r.next() as u32).collect();
            while v.len() < n {
                for c in cur.iter_mut() {
                    *c = c.wrapping_add(r.below(5) as u32);
                    v.push((*c >> 3) as u8);
                }
            }
        },
        7 => {
            let p = 20 + r.below(3000) as usize;
            let pat: Vec<u8> = (0..p).map(|_| b'a' + r.below(26) as u8).collect();
            while v.len() < n {
                let at = v.len();
                v.extend_from_slice(&pat);
                for _ in 0..r.below(4) {
                    let k = at + r.below(p as u64) as usize;
                    v[k] = r.next() as u8;
                }
            }
        },
        8 => while v.len() < n {
            let x = v.len();
            v.push((x ^ (x >> 8)) as u8);
        },
        10 => while v.len() < n {
            // blocks unlike each other, some with many literals, some with few commands
            let m = 10_000 + r.below(70_000) as usize;
            let base = r.next() as u8;
            let k = 2 + r.below(200);
            let p = 1 + r.below(400) as usize;
            let tile: Vec<u8> = (0..p).map(|_| base.wrapping_add(r.below(k) as u8)).collect();
            if r.below(3) == 0 {
                for i in 0..m {
                    v.push(tile[i % p]);
                }
            } else {
                for _ in 0..m {
                    v.push(base.wrapping_add((r.below(k).min(r.below(k))) as u8));
                }
            }
        },
        _ => {
            let m = n.min(5);
            while v.len() < m {
                v.push(r.next() as u8);
            }
            v.truncate(m);
            return v;
        },
    }
    v.truncate(n);
    v
}

/// Compressor settings, as both the Rust and the C interface can state them.
#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub internal: bool,
    pub bitstream: bool,
    pub quality: Option<u16>,
    pub q9_5: bool,
    pub window: Option<i32>,
    pub lgblock: Option<u32>,
    pub mixing: Option<u8>,
    pub context_map: Option<bool>,
    pub stride: Option<u8>,
    pub prior_depth: Option<u8>,
    pub bitmask: Option<u8>,
    pub stride_quality: Option<u8>,
    pub speed_quality: Option<u8>,
    pub adaptation: Option<[u8; 4]>,
    pub literal_mode: Option<u8>,
    pub byte_score: Option<u32>,
    pub optimizer: Option<u8>,
    /// speeds that only the Rust interface can state, in place of `adaptation`
    pub speeds: Option<[(i16, i16); 4]>,
}
/// One of the first `n`, or now and then something no one has given a meaning.
fn odd(n: u64) -> u8 {
    if choice::chance(Stream::Plan, 1, 12) {
        crate::note::probe("option with no meaning");
        choice::pick_of(Stream::Plan, &[n as u8, 7, 8, 15, 16, 100, 255])
    } else {
        choice::pick(Stream::Plan, n) as u8
    }
}
/// Options as the types of whichever build of divans is in scope.
macro_rules! compressor_options {
    ($o:expr) => {{
            let mut r = DivansCompressorOptions::default();
            r.use_brotli = if $o.internal {
                BrotliCompressionSetting::UseInternalCommandSelection
            } else if $o.bitstream {
                BrotliCompressionSetting::UseBrotliBitstream
            } else {
                BrotliCompressionSetting::UseBrotliCommandSelection
            };
            if $o.quality.is_some() {
                r.quality = $o.quality;
            }
            r.q9_5 = $o.q9_5;
            if $o.window.is_some() {
                r.window_size = $o.window;
            }
            if $o.lgblock.is_some() {
                r.lgblock = $o.lgblock;
            }
            if $o.mixing.is_some() {
                r.dynamic_context_mixing = $o.mixing;
            }
            if let Some(b) = $o.context_map {
                r.use_context_map = b;
            }
            if let Some(s) = $o.stride {
                r.force_stride_value = [StrideSelection::PriorDisabled, StrideSelection::Stride1, StrideSelection::Stride2, StrideSelection::Stride3,
                    StrideSelection::Stride4, StrideSelection::Stride5, StrideSelection::Stride6, StrideSelection::Stride7, StrideSelection::Stride8][s as usize];
            }
            if $o.prior_depth.is_some() {
                r.prior_depth = $o.prior_depth;
            }
            if let Some(b) = $o.bitmask {
                r.prior_bitmask_detection = b;
            }
            if $o.stride_quality.is_some() {
                r.stride_detection_quality = $o.stride_quality;
            }
            if $o.speed_quality.is_some() {
                r.speed_detection_quality = $o.speed_quality;
            }
            if let Some(a) = $o.adaptation {
                let p = Speed::ENCODER_DEFAULT_PALETTE;
                r.literal_adaptation = Some([p[a[0] as usize], p[a[1] as usize], p[a[2] as usize], p[a[3] as usize]]);
            }
            if let Some(a) = $o.speeds {
                let s = |i: usize| Speed::new(a[i].0, a[i].1);
                r.literal_adaptation = Some([s(0), s(1), s(2), s(3)]);
            }
            if let Some(m) = $o.literal_mode {
                r.force_literal_context_mode = Some(LiteralPredictionModeNibble(m));
            }
            if $o.byte_score.is_some() {
                r.brotli_literal_byte_score = $o.byte_score;
            }
            if let Some(x) = $o.optimizer {
                r.divans_ir_optimizer = x;
            }
            r
    }};
}
pub(crate) use compressor_options;

impl Opts {
    /// `cheap` leaves out the settings that make the compressor slow.
    pub fn draw(cheap: bool) -> Opts {
        use Stream::Plan as P;
        let mut o = Opts::default();
        o.internal = choice::chance(P, 1, 5);
        if choice::chance(P, 1, 3) {
            o.quality = Some(choice::pick_of(P, if cheap { &[5u16, 4, 6, 7, 9, 2, 1, 0] } else { &[5u16, 4, 6, 7, 9, 2, 3, 8, 10, 11, 1, 0, 12, 65535] }));
        } else {
            o.quality = Some(if cheap { 5 } else { choice::pick_of(P, &[5u16, 6, 9, 10, 11]) });
        }
        o.q9_5 = !cheap && choice::chance(P, 1, 12);
        if choice::chance(P, 2, 3) {
            o.window = Some(choice::pick_of(P, &[16, 10, 11, 12, 13, 14, 18, 20, 22, 24, 15, 9, 25, -1]));
        } else {
            o.window = Some(16);
        }
        o.lgblock = Some(choice::pick_of(P, &[16, 16, 16, 17, 18, 20]));
        if !cheap && choice::chance(P, 1, 20) {
            o.lgblock = Some(choice::pick_of(P, &[0, 1, 15, 21, 24, 30, 255]));
        }
        if choice::chance(P, 1, 2) {
            o.mixing = Some(odd(3));
        }
        if choice::chance(P, 1, 4) {
            o.context_map = Some(choice::chance(P, 1, 2));
        }
        if choice::chance(P, 1, 3) {
            o.stride = Some(choice::pick(P, 9) as u8);
        }
        if choice::chance(P, 1, 3) {
            o.prior_depth = Some(odd(3));
        }
        if choice::chance(P, 1, 4) {
            o.bitmask = Some(odd(2));
        }
        if choice::chance(P, 1, 4) {
            // 3 and above reach a brotli assertion; C04 looks at that
            o.stride_quality = Some(choice::pick(P, 3) as u8);
        }
        if choice::chance(P, 1, 5) {
            o.speed_quality = Some(odd(3));
        }
        if choice::chance(P, 1, 3) {
            let n = Speed::ENCODER_DEFAULT_PALETTE.len() as u64;
            let mut a = [0u8; 4];
            for x in a.iter_mut() {
                *x = choice::pick(P, n) as u8;
            }
            o.adaptation = Some(a);
        }
        if choice::chance(P, 1, 5) {
            o.literal_mode = Some(odd(4));
        }
        if choice::chance(P, 1, 8) {
            // below four brotli takes no match at all and compares everything with everything
            o.byte_score = Some(choice::pick_of(P, &[340, 140, 240, 540, 2000, 4, 2080, 2090, 4000, 70_000, u32::MAX]));
        }
        if !cheap && choice::chance(P, 1, 8) {
            o.optimizer = Some(if choice::chance(P, 1, 8) { 255 } else { 1 });
        }
        o.bitstream = choice::chance(P, 1, 20);
        crate::note::desc(&format!("{:?}", o).replace("Some(", "(").replace(": None", ": -"));
        o
    }
    pub fn rust(&self) -> DivansCompressorOptions {
        compressor_options!(self)
    }
    /// The same settings as (selector, value) pairs of the C interface.
    pub fn c(&self) -> Vec<(u8, u32)> {
        let mut v = Vec::new();
        if self.internal {
            v.push((5, 0));
        } else if self.bitstream {
            v.push((6, 1));
        } else {
            v.push((5, 1));
        }
        if let Some(x) = self.quality {
            v.push((1, x as u32));
        }
        if let Some(x) = self.window {
            v.push((2, x as u32));
        }
        if let Some(x) = self.lgblock {
            v.push((3, x));
        }
        if let Some(x) = self.mixing {
            v.push((4, x as u32));
        }
        if let Some(x) = self.context_map {
            v.push((7, x as u32));
        }
        if let Some(x) = self.stride {
            v.push((9, x as u32));
        }
        if let Some(x) = self.stride_quality {
            v.push((10, x as u32));
        }
        if let Some(x) = self.prior_depth {
            v.push((11, x as u32));
        }
        if let Some(a) = self.adaptation {
            for (sel, i) in [(14u8, 0usize), (12, 1), (13, 2), (8, 3)] {
                v.push((sel, a[i] as u32));
            }
        }
        if let Some(x) = self.byte_score {
            v.push((15, x));
        }
        if let Some(x) = self.speed_quality {
            v.push((16, x as u32));
        }
        if let Some(x) = self.bitmask {
            v.push((17, x as u32));
        }
        if self.q9_5 {
            v.push((18, 1));
        }
        if let Some(x) = self.literal_mode {
            v.push((19, x as u32));
        }
        if let Some(x) = self.optimizer {
            v.push((20, x as u32));
        }
        v
    }
}
