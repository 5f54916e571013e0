//! The std::io adaptors over readers and writers that misbehave.
use super::*;
use divans::{DivansBrotliHybridCompressorReader as BrReader, DivansBrotliHybridCompressorWriter as BrWriter};
use divans::{DivansDecompressorReader as DeReader, DivansDecompressorWriter as DeWriter};
use divans::{DivansExperimentalCompressorReader as ExReader, DivansExperimentalCompressorWriter as ExWriter};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// What the reader or writer underneath does to the calls made of it.
#[derive(Clone)]
struct Weather {
    short: u64,
    interrupted: u64,
    block: u64,
    hard: u64,
    zero: u64,
}
impl Weather {
    fn draw() -> Weather {
        let on = |p| if choice::chance(P, p, 3) { 1 + choice::pick(P, 6) } else { 0 };
        Weather { short: on(2), interrupted: on(1), block: on(1), hard: on(1), zero: on(1) }
    }
}
const HARD: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe];
enum Act {
    Fail(ErrorKind),
    Zero,
    Short,
    Full,
}
impl Weather {
    fn act(&self) -> Act {
        match choice::weighted(F, &[20, self.interrupted, self.block, self.hard, self.zero, 2 * self.short]) {
            1 => {
                note::fault("interrupted");
                Act::Fail(ErrorKind::Interrupted)
            },
            2 => {
                note::fault("would block");
                Act::Fail(ErrorKind::WouldBlock)
            },
            3 => {
                note::fault("hard I/O error");
                Act::Fail(choice::pick_of(F, HARD))
            },
            4 => Act::Zero,
            5 => Act::Short,
            _ => Act::Full,
        }
    }
}
/// What happened underneath, shared with the test.
#[derive(Default)]
struct Below {
    /// errors raised and not yet seen by the caller
    pending: Vec<u64>,
    raised: u64,
    /// writer: bytes taken
    bytes: Vec<u8>,
    /// reader: bytes handed out
    pos: usize,
    /// writer: bytes taken when it was last flushed
    flushed: Option<usize>,
    full: bool,
}
type Shared = Rc<RefCell<Below>>;
fn raise(b: &mut Below, k: ErrorKind) -> io::Error {
    b.raised += 1;
    if k != ErrorKind::Interrupted {
        b.pending.push(b.raised);
    }
    io::Error::new(k, Tag(b.raised))
}
#[derive(Debug)]
struct Tag(u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}
impl std::error::Error for Tag {}
fn tag(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).map(|t| t.0)
}

struct Source {
    data: Vec<u8>,
    weather: Weather,
    below: Shared,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = self.below.borrow_mut();
        let left = self.data.len() - b.pos;
        let n = match self.weather.act() {
            Act::Fail(k) => return Err(raise(&mut b, k)),
            Act::Short if left > 1 && buf.len() > 1 => {
                note::fault("short read");
                1 + choice::pick(F, (left.min(buf.len()) as u64 - 1).min(70)) as usize
            },
            _ => left.min(buf.len()),
        };
        if buf.is_empty() {
            note::probe("read of nothing underneath");
        }
        let p = b.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        b.pos += n;
        if n != 0 {
            sched::progress();
        }
        Ok(n)
    }
}
struct Sink {
    weather: Weather,
    /// full after this many bytes
    limit: usize,
    below: Shared,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut b = self.below.borrow_mut();
        if b.bytes.len() > self.limit {
            b.full = true;
            return Err(raise(&mut b, ErrorKind::StorageFull));
        }
        let n = match self.weather.act() {
            Act::Fail(k) => return Err(raise(&mut b, k)),
            Act::Zero => {
                note::fault("write of nothing");
                return Ok(0);
            },
            Act::Short if buf.len() > 1 => {
                note::fault("short write");
                1 + choice::pick(F, (buf.len() as u64 - 1).min(70)) as usize
            },
            _ => buf.len(),
        };
        b.bytes.extend_from_slice(&buf[..n]);
        if n != 0 {
            sched::progress();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut b = self.below.borrow_mut();
        if let Act::Fail(k) = self.weather.act() {
            return Err(raise(&mut b, k));
        }
        b.flushed = Some(b.bytes.len());
        Ok(())
    }
}
fn buffer_size() -> usize {
    choice::pick_of(P, &[0usize, 1, 2, 3, 7, 16, 17, 64, 255, 256, 257, 300, 512, 1000, 4096, 65536])
}


#[derive(Debug)]
enum What {
    Ended,
    /// an error that did not come from below
    Broken(String),
}
/// Reads to the end as a careful caller does: again after every error that
/// came from below.
fn read_all(r: &mut dyn Read, below: &Shared, strict: bool, limit: usize) -> Res<(Vec<u8>, What)> {
    let mode = Mode::draw(8_000);
    let mut buf = vec![0u8; (1 << 16) + 32];
    let mut out = Vec::new();
    let mut calls = 0u64;
    let mut after = 0;
    let mut what: Option<What> = None;
    while after < 3 {
        calls += 1;
        sched::client_step();
        let n = if what.is_some() { 100 } else { mode.next(1 << 16) };
        for b in buf[..n + 32].iter_mut() {
            *b = 0xc7;
        }
        let pos = below.borrow().pos;
        let r = match crate::panics::catch(|| r.read(&mut buf[..n])) {
            Ok(r) => r,
            Err(m) => return v("panic", format!("read of {} panicked: {}", n, m)),
        };
        note::print(r.as_ref().map(|x| *x as u64).unwrap_or(u64::MAX));
        if buf[n..n + 32].iter().any(|b| *b != 0xc7) {
            return v("stray-write", "read wrote past the buffer");
        }
        if below.borrow().pos != pos {
            sched::progress();
        }
        match r {
            Ok(k) if k > n => return v("offset-range", format!("read of {} returned {}", n, k)),
            Ok(0) if n == 0 => {},
            Ok(0) => match what {
                None => {
                    if strict && !below.borrow().pending.is_empty() {
                        return v("error-lost", "end of file reported with an error of the inner reader never reported");
                    }
                    what = Some(What::Ended);
                },
                Some(What::Ended) => after += 1,
                Some(What::Broken(m)) => return v("false-end", format!("end of file reported after {}", m)),
            },
            Ok(k) => {
                sched::progress();
                if let Some(w) = what {
                    return v("after-end", format!("{} bytes read after {:?}", k, w));
                }
                out.extend_from_slice(&buf[..k]);
            },
            Err(e) => match tag(&e) {
                Some(t) => {
                    if e.kind() == ErrorKind::Interrupted {
                        note::probe("Interrupted passed on");
                    } else {
                        let mut b = below.borrow_mut();
                        if b.pending.first() != Some(&t) {
                            return v("error-identity", format!("read returned error {}, expected one of {:?}", t, b.pending));
                        }
                        b.pending.remove(0);
                    }
                },
                None => match what {
                    None => what = Some(What::Broken(format!("{:?}: {}", e.kind(), e))),
                    Some(What::Broken(_)) => after += 1,
                    Some(What::Ended) => return v("after-end", format!("{:?} after the end of file", e)),
                },
            },
        }
        if out.len() > limit || calls > 2_000_000 {
            return v("runaway", format!("reading does not end: {} bytes in {} calls", out.len(), calls));
        }
    }
    Ok((out, what.unwrap()))
}
fn left_over(who: &str) -> Res<()> {
    match sched::quiesce() {
        Some(w) => v("worker-left", format!("{}: {}", who, w)),
        None => Ok(()),
    }
}

// C11: read adaptors
pub fn c11() -> Res<()> {
    let below: Shared = Rc::default();
    if choice::chance(P, 1, 4) {
        let data = gen::data(12_000);
        let opts = Opts::draw(true);
        let src = Source { data: data.clone(), weather: Weather::draw(), below: below.clone() };
        let size = buffer_size();
        note::desc(&format!("compressing reader, buffer of {}", size));
        let mut r: Box<dyn Read> = if opts.internal { Box::new(ExReader::new(src, opts.rust(), size)) } else { Box::new(BrReader::new(src, opts.rust(), size)) };
        let (bytes, what) = match read_all(&mut *r, &below, true, RUNAWAY) {
            Err(bad) if in_brotli(&bad) => {
                note::probe("brotli panicked");
                return Ok(());
            },
            other => other?,
        };
        drop(r);
        if let What::Broken(m) = what {
            return v("read-failed", format!("compressing reader: {}", m));
        }
        let o = decode(Front::Rust, false, false, 10, &bytes, &Slicing::whole(1 << 16), RUNAWAY)?;
        expect_data("what the compressing reader gave", &o, &data, bytes.len())?;
        note::nontrivial();
        return Ok(());
    }
    let val = valid(12_000, true)?;
    let mut bytes = val.bytes.clone();
    let kind = choice::weighted(F, &[4, 2, 2]);
    match kind {
        0 => {
            // what follows the stream must not disturb
            let n = choice::pick(P, 3) as usize * 9;
            bytes.extend_from_slice(&val.bytes[..n.min(val.bytes.len())]);
        },
        1 => {
            let cut = choice::pick(F, bytes.len() as u64) as usize;
            bytes.truncate(cut);
            note::fault("truncated stream");
        },
        _ => damage(&mut bytes),
    }
    let src = Source { data: bytes.clone(), weather: Weather::draw(), below: below.clone() };
    let (size, multi) = (buffer_size(), choice::chance(P, 1, 3));
    let skip = kind != 2 && choice::chance(P, 1, 4);
    note::desc(&format!("decompressing reader, buffer of {}{}", size, if multi { ", multithreaded" } else { "" }));
    let mut r = DeReader::new(src, size, skip, multi);
    let limit = if kind == 2 { 200_000 } else { RUNAWAY };
    let got = match read_all(&mut r, &below, false, limit) {
        Err(ref bad) if kind == 2 && bad.kind == "runaway" => None,
        other => Some(other?),
    };
    drop(r);
    left_over("reader dropped")?;
    if let Some((out, what)) = got {
        match (kind, what) {
            (0, What::Ended) | (2, What::Ended) => if out != val.data {
                return v("wrong-data", format!("reader ended cleanly with other bytes: {}", diff(&out, &val.data)));
            },
            (0, What::Broken(m)) => return v("read-failed", format!("{} after {} of {} bytes", m, out.len(), val.data.len())),
            (1, What::Ended) => return v("false-end", format!("clean end of file of a stream cut to {} of {} bytes, {} of {} bytes delivered", bytes.len(), val.bytes.len(), out.len(), val.data.len())),
            (1, What::Broken(_)) => if !val.data.starts_with(&out) {
                return v("wrong-data", format!("bytes of a truncated stream: {}", diff(&out, &val.data)));
            },
            _ => {},
        }
    }
    note::nontrivial();
    Ok(())
}

/// Writes `data` and flushes as a careful caller does: what a call did not
/// take is offered again, whatever came from below.
/// `None`: everything was taken and flushed; otherwise the adaptor's own error.
fn write_all(w: &mut dyn Write, data: &[u8], below: &Shared) -> Res<Option<String>> {
    let mode = Mode::draw(8_000);
    let mut pos = 0;
    let mut calls = 0u64;
    let mut idle = 0;
    loop {
        calls += 1;
        sched::client_step();
        let n = mode.next(data.len() - pos);
        let before = below.borrow().bytes.len();
        let r = if pos == data.len() { Ok(Err(())) } else { crate::panics::catch(|| Ok(w.write(&data[pos..pos + n]))) };
        let e = match r {
            Err(m) => return v("panic", format!("write of {} panicked: {}", n, m)),
            Ok(Ok(Ok(k))) => {
                if k > n {
                    return v("offset-range", format!("write of {} returned {}", n, k));
                }
                pos += k;
                idle = if k != 0 || n == 0 { 0 } else { idle + 1 };
                note::print(k as u64);
                None
            },
            Ok(Ok(Err(e))) => Some(e),
            Ok(Err(())) => match crate::panics::catch(|| w.flush()) {
                Err(m) => return v("panic", format!("flush panicked: {}", m)),
                Ok(Ok(())) => {
                    let b = below.borrow();
                    if b.flushed != Some(b.bytes.len()) {
                        return v("not-flushed", "flush succeeded without flushing the writer underneath after its last write");
                    }
                    return Ok(None);
                },
                Ok(Err(e)) => Some(e),
            },
        };
        if below.borrow().full {
            return Ok(Some("enough".to_string()));
        }
        if let Some(e) = e {
            idle += 1;
            match tag(&e) {
                Some(t) => {
                    if t > below.borrow().raised {
                        return v("error-identity", "an error was returned that was not raised");
                    }
                    if e.kind() == ErrorKind::Interrupted {
                        note::probe("Interrupted passed on");
                    }
                },
                None if e.kind() == ErrorKind::WriteZero => {},
                None => return Ok(Some(format!("{:?}: {}", e.kind(), e))),
            }
        }
        if below.borrow().bytes.len() != before {
            idle = 0;
        }
        if idle == 0 {
            sched::progress();
        }
        // three in five calls of the writer underneath succeed at the least
        if idle > 400 {
            return v("no-progress", format!("{} calls without progress at byte {} of {}", idle, pos, data.len()));
        }
        if calls > 2_000_000 {
            return v("runaway", "writing does not end");
        }
    }
}

// C12: write adaptors
pub fn c12() -> Res<()> {
    let below: Shared = Rc::default();
    let mut sink = Sink { weather: Weather::draw(), limit: RUNAWAY, below: below.clone() };
    let size = buffer_size();
    if choice::chance(P, 1, 3) {
        let data = gen::data(12_000);
        let opts = Opts::draw(true);
        note::desc(&format!("compressing writer, buffer of {}", size));
        let mut w: Box<dyn Write> = if opts.internal { Box::new(ExWriter::new(sink, opts.rust(), size)) } else { Box::new(BrWriter::new(sink, opts.rust(), size)) };
        match write_all(&mut *w, &data, &below) {
            Err(ref bad) if in_brotli(bad) => {
                note::probe("brotli panicked");
                return Ok(());
            },
            Err(bad) => return Err(bad),
            Ok(Some(m)) => return v("write-failed", format!("compressing writer: {}", m)),
            Ok(None) => {},
        }
        let bytes = below.borrow().bytes.clone();
        // nothing may follow the end
        for _ in 0..choice::pick(F, 5) {
            note::fault("call after the end");
            match choice::pick(F, 3) {
                0 => if let Ok(n) = w.write(b"more") {
                    return v("write-after-end", format!("{} bytes taken after the stream was ended", n));
                },
                1 => if let Ok(Err(e)) = crate::panics::catch(|| w.write(b"")) {
                    if tag(&e).is_none() {
                        note::probe("empty write after the end refused");
                    }
                },
                _ => {
                    let _ = w.flush();
                },
            }
        }
        drop(w);
        if below.borrow().bytes != bytes {
            return v("write-after-end", "bytes were written after the stream was ended");
        }
        let o = decode(Front::Rust, false, false, 10, &bytes, &Slicing::whole(1 << 16), RUNAWAY)?;
        expect_data("what the compressing writer wrote", &o, &data, bytes.len())?;
        note::nontrivial();
        return Ok(());
    }
    let val = valid(12_000, true)?;
    let mut bytes = val.bytes.clone();
    let hurt = choice::chance(F, 1, 3);
    if hurt {
        damage(&mut bytes);
        sink.limit = 200_000;
    }
    let multi = choice::chance(P, 1, 3);
    note::desc(&format!("decompressing writer, buffer of {}{}", size, if multi { ", multithreaded" } else { "" }));
    let mut w = DeWriter::new(sink, size, false, multi);
    let got = write_all(&mut w, &bytes, &below);
    drop(w);
    left_over("writer dropped")?;
    let out = std::mem::take(&mut below.borrow_mut().bytes);
    match got {
        Err(ref bad) if hurt && bad.kind == "runaway" => {},
        Err(bad) => return Err(bad),
        Ok(e) => if !hurt {
            if let Some(m) = e {
                return v("write-failed", format!("decompressing writer: {} after {} of {} bytes", m, out.len(), val.data.len()));
            }
            if out != val.data {
                return v("wrong-data", format!("decompressing writer: {}", diff(&out, &val.data)));
            }
        },
    }
    note::nontrivial();
    Ok(())
}
