//! The command line tool as a process in a small simulated system.
use super::*;
use simstd::{Host, How};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, SeekFrom};
use std::rc::Rc;

/// Calls in a row that move no byte before a process is taken to hang.
const SPIN: u64 = 20_000;
struct Hang;

#[derive(Clone, Debug, Default)]
struct Troubles {
    short: u64,
    interrupted: u64,
    /// one in so many calls fails; 0 for never
    read: u64,
    write: u64,
    open: u64,
    /// after the first failure of a kind, that is how it stays
    sticky: bool,
    /// nothing is taken any more
    zero: u64,
    /// bytes the disk has room for
    room: Option<u64>,
}
impl Troubles {
    fn draw() -> Troubles {
        let mut t = Troubles::default();
        if choice::chance(P, 2, 3) {
            t.short = choice::pick(P, 6);
        }
        if choice::chance(P, 1, 3) {
            t.interrupted = choice::pick(P, 6);
        }
        if choice::chance(P, 1, 2) {
            let n = choice::pick_of(P, &[2u64, 3, 8, 30, 200]);
            match choice::pick(P, 6) {
                0 => t.read = n,
                1 => t.write = n,
                2 => t.room = Some(choice::size(P, 0, 20_000)),
                3 => t.zero = n,
                4 => t.open = 2,
                _ => {
                    t.read = n;
                    t.write = n;
                },
            }
            t.sticky = choice::chance(P, 1, 2);
        }
        t
    }
}
struct Open {
    file: Rc<RefCell<Vec<u8>>>,
    pos: usize,
    read: bool,
    write: bool,
    append: bool,
}
struct Os {
    args: Vec<String>,
    files: BTreeMap<String, Rc<RefCell<Vec<u8>>>>,
    fds: Vec<Option<Open>>,
    t: Troubles,
    idle: u64,
    written: u64,
    /// a call failed for good, other than Interrupted
    failed: Option<ErrorKind>,
    stuck_read: bool,
    stuck_write: bool,
    zero: bool,
}
const READ_ERRORS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut];
const WRITE_ERRORS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WouldBlock];
impl Os {
    fn fail<T>(&mut self, k: ErrorKind, what: &str) -> io::Result<T> {
        note::fault(what);
        self.failed = Some(k);
        Err(io::Error::from(k))
    }
    /// A call was made that may not bring anything further.
    fn call(&mut self) {
        sched::client_step();
        self.idle += 1;
        if self.idle > SPIN {
            std::panic::resume_unwind(Box::new(Hang));
        }
    }
    fn moved(&mut self, n: usize) {
        note::print(n as u64);
        if n != 0 {
            self.idle = 0;
            sched::progress();
        }
    }
    fn interrupted(&mut self) -> bool {
        if self.t.interrupted != 0 && choice::chance(F, self.t.interrupted, 20) {
            note::fault("interrupted");
            return true;
        }
        false
    }
    fn length(&mut self, n: usize, what: &str) -> usize {
        if n > 1 && self.t.short != 0 && choice::chance(F, self.t.short, 10) {
            note::fault(what);
            return 1 + choice::size(F, 0, n as u64 - 2) as usize;
        }
        n
    }
    fn strikes(&mut self, one_in: u64) -> bool {
        one_in != 0 && choice::chance(F, 1, one_in)
    }
    fn fd(&mut self, fd: u32) -> io::Result<&mut Open> {
        match self.fds.get_mut(fd as usize) {
            Some(Some(o)) => Ok(o),
            _ => Err(io::Error::from(ErrorKind::Other)),
        }
    }
}
impl Host for Os {
    fn args(&mut self) -> Vec<String> {
        self.args.clone()
    }
    fn open(&mut self, path: &str, how: &How) -> io::Result<u32> {
        self.call();
        if self.strikes(self.t.open) {
            return self.fail(ErrorKind::PermissionDenied, "file cannot be opened");
        }
        let have = self.files.get(path).cloned();
        let file = match have {
            Some(_) if how.create_new => return Err(io::Error::from(ErrorKind::AlreadyExists)),
            Some(f) => f,
            None if how.create || how.create_new => {
                let f = Rc::new(RefCell::new(Vec::new()));
                self.files.insert(path.to_string(), f.clone());
                f
            },
            None => return Err(io::Error::from(ErrorKind::NotFound)),
        };
        if how.truncate && how.write {
            file.borrow_mut().clear();
        }
        self.fds.push(Some(Open { file, pos: 0, read: how.read, write: how.write || how.append, append: how.append }));
        Ok(self.fds.len() as u32 - 1)
    }
    fn close(&mut self, fd: u32) {
        self.fds[fd as usize] = None;
    }
    fn read(&mut self, fd: u32, buf: &mut [u8]) -> io::Result<usize> {
        self.call();
        if self.interrupted() {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if self.stuck_read || self.strikes(self.t.read) {
            self.stuck_read = self.t.sticky;
            let k = choice::pick_of(F, READ_ERRORS);
            return self.fail(k, "read error");
        }
        let left = {
            let o = self.fd(fd)?;
            if !o.read {
                return Err(io::Error::from(ErrorKind::Other));
            }
            let n = o.file.borrow().len();
            n.saturating_sub(o.pos).min(buf.len())
        };
        let n = self.length(left, "short read");
        {
            let o = self.fd(fd)?;
            buf[..n].copy_from_slice(&o.file.borrow()[o.pos..o.pos + n]);
            o.pos += n;
        }
        self.moved(n);
        Ok(n)
    }
    fn write(&mut self, fd: u32, buf: &[u8]) -> io::Result<usize> {
        if fd == 2 {
            return Ok(buf.len());
        }
        self.call();
        if self.interrupted() {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if self.stuck_write || self.strikes(self.t.write) {
            self.stuck_write = self.t.sticky;
            let k = choice::pick_of(F, WRITE_ERRORS);
            return self.fail(k, "write error");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.zero || self.strikes(self.t.zero) {
            self.zero = true;
            note::fault("write of nothing");
            self.failed = Some(ErrorKind::WriteZero);
            return Ok(0);
        }
        let mut n = self.length(buf.len(), "short write");
        if let Some(room) = self.t.room {
            if self.written >= room {
                return self.fail(ErrorKind::StorageFull, "disk full");
            }
            n = n.min((room - self.written) as usize);
        }
        {
            let o = self.fd(fd)?;
            if !o.write {
                return Err(io::Error::from(ErrorKind::Other));
            }
            let mut f = o.file.borrow_mut();
            let at = if o.append { f.len() } else { o.pos };
            if f.len() < at + n {
                f.resize(at + n, 0);
            }
            f[at..at + n].copy_from_slice(&buf[..n]);
            o.pos = at + n;
        }
        self.written += n as u64;
        self.moved(n);
        Ok(n)
    }
    fn seek(&mut self, fd: u32, to: SeekFrom) -> io::Result<u64> {
        self.call();
        let o = self.fd(fd)?;
        let p = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => o.file.borrow().len() as i64 + n,
            SeekFrom::Current(n) => o.pos as i64 + n,
        };
        if p < 0 {
            return Err(io::Error::from(ErrorKind::InvalidInput));
        }
        o.pos = p as usize;
        Ok(p as u64)
    }
    fn sync(&mut self, fd: u32) -> io::Result<()> {
        self.call();
        if self.stuck_write || self.strikes(self.t.write) {
            self.stuck_write = self.t.sticky;
            return self.fail(ErrorKind::Other, "sync error");
        }
        self.fd(fd).map(|_| ())
    }
    fn set_len(&mut self, fd: u32, len: u64) -> io::Result<()> {
        self.call();
        self.fd(fd)?.file.borrow_mut().resize(len as usize, 0);
        Ok(())
    }
    fn len(&mut self, fd: u32) -> io::Result<u64> {
        Ok(self.fd(fd)?.file.borrow().len() as u64)
    }
    fn remove(&mut self, path: &str) -> io::Result<()> {
        self.call();
        self.files.remove(path).map(|_| ()).ok_or(io::Error::from(ErrorKind::NotFound))
    }
    fn rename(&mut self, from: &str, to: &str) -> io::Result<()> {
        self.call();
        let f = self.files.remove(from).ok_or(io::Error::from(ErrorKind::NotFound))?;
        self.files.insert(to.to_string(), f);
        Ok(())
    }
    fn exists(&mut self, path: &str) -> bool {
        self.files.contains_key(path)
    }
}

/// What one process did.
struct Ran {
    code: i32,
    out: Vec<u8>,
    failed: Option<ErrorKind>,
    /// where it panicked, if it did
    why: String,
    /// files written to are there
    made: bool,
}
fn name(k: u64) -> (&'static str, &'static str, bool) {
    match k {
        0 => ("in", "out", false),
        1 => ("a b.raw", "./x/y.dv", false),
        // names that look like options, after --
        _ => ("-d", "-i", true),
    }
}
/// Runs the tool over `input`, by name or through the standard streams.
fn tool(mut flags: Vec<String>, input: &[u8], t: Troubles) -> Res<Ran> {
    let (source, target, odd) = name(choice::pick(P, 3));
    let file = |v: &[u8]| Rc::new(RefCell::new(v.to_vec()));
    let mut files = BTreeMap::new();
    // 0: both by name, 1: output to standard output, 2: both standard streams
    let form = choice::pick(P, 3);
    if form == 0 && choice::chance(P, 1, 6) {
        flags.push(format!("-benchmark={}", choice::pick_of(P, &[1, 2, 3])));
    }
    if odd && form != 2 {
        flags.push("--".to_string());
    }
    let stdout = file(&[]);
    let mut args = vec!["divans".to_string()];
    args.append(&mut flags);
    let stdin = if form == 2 { file(input) } else { file(&[]) };
    if form != 2 {
        files.insert(source.to_string(), file(input));
        args.push(source.to_string());
    }
    if form == 0 {
        if choice::chance(P, 1, 2) {
            // there is one already, and longer
            files.insert(target.to_string(), file(&vec![0x55; choice::size(P, 0, 30_000) as usize]));
        }
        args.push(target.to_string());
    }
    note::desc(&format!("{:?} on {} bytes, {:?}", args, input.len(), t));
    let at = |f: &Rc<RefCell<Vec<u8>>>, read: bool| Some(Open { file: f.clone(), pos: 0, read, write: !read, append: false });
    let os = Rc::new(RefCell::new(Os {
        args,
        files,
        fds: vec![at(&stdin, true), at(&stdout, false), None],
        t,
        idle: 0,
        written: 0,
        failed: None,
        stuck_read: false,
        stuck_write: false,
        zero: false,
    }));
    let mut hang = false;
    let mut code = 101;
    let mut why = String::new();
    let r = simstd::process_of(os.clone(), divscli::run);
    match r {
        Ok(c) => code = c,
        Err(e) if e.is::<Hang>() => hang = true,
        Err(_) => why = crate::panics::last(),
    }
    let os = os.borrow();
    note::print(code as u64);
    if hang {
        return v("spins", format!("{} calls in a row without a byte moved", SPIN));
    }
    if form != 2 {
        match os.files.get(source) {
            Some(f) if *f.borrow() == input => {},
            _ => return v("input-touched", "the input file is not what it was"),
        }
    }
    let out = if form == 0 { os.files.get(target).map(|f| f.borrow().clone()) } else { Some(stdout.borrow().clone()) };
    if code != 0 {
        note::probe("exit status not 0");
    }
    Ok(Ran { code, made: out.is_some(), out: out.unwrap_or_default(), failed: os.failed, why })
}
fn flags(compress: bool) -> Vec<String> {
    let mut v = Vec::new();
    let mut add = |s: String| v.push(s);
    if choice::chance(P, 1, 3) {
        add("-serial".to_string());
    }
    if choice::chance(P, 2, 3) {
        add(format!("-bs{}", choice::pick_of(P, &[4096, 1, 2, 3, 7, 15, 16, 17, 64, 100, 1000, 65536, 0])));
    }
    if !compress {
        return v;
    }
    if choice::chance(P, 1, 3) {
        add(format!("-q{}", choice::pick_of(P, &[5, 2, 3, 4, 6, 7, 9, 10])));
    } else if choice::chance(P, 1, 12) {
        add(choice::pick_of(P, &["-q9.5", "-q9.5x"]).to_string());
    } else {
        add("-q5".to_string());
    }
    add(format!("-lgwin{}", choice::pick_of(P, &[16, 17, 18, 20])));
    if choice::chance(P, 5, 6) {
        add(format!("{}{}", choice::pick_of(P, &["-w", "-window="]), choice::pick_of(P, &[16, 10, 11, 12, 18, 22])));
    }
    for (s, den) in [("-nobrotli", 4u64), ("-nocm", 6), ("-cm", 9), ("-utf8", 10), ("-msb", 10), ("-lsb", 10), ("-sign", 10), ("-nostride", 9), ("-brotlistride", 9),
        ("-advbrotlistride", 12), ("-s", 12), ("-stride=1", 9), ("-stride=4", 9), ("-stride=8", 12), ("-findprior", 12), ("-defaultprior", 8), ("-mixing=0", 9), ("-mixing=2", 9),
        ("-findspeed", 12), ("-prior=1", 12), ("-p2", 12), ("-bytescore=340", 12), ("-O2", 12), ("-O0", 16), ("-speed=8,8192", 10), ("-speedlow=1,128", 12), ("-cmspeed=2,1024", 12), ("-cmspeedlow=1,16384", 12)] {
        if choice::chance(P, 1, den) {
            add(s.to_string());
        }
    }
    v
}
/// The input was good: it works unless a call failed, and if it says that it
/// worked, it did.
fn judge(what: &str, r: &Ran, right: &mut dyn FnMut(&[u8]) -> Res<()>) -> Res<()> {
    if r.code == 0 {
        if let Err(bad) = right(&r.out) {
            return v("false-success", format!("{}: exit status 0{}, but: {} {}", what, r.failed.map_or(String::new(), |k| format!(" after {:?}", k)), bad.kind, bad.detail));
        }
        if r.failed.is_some() {
            note::probe("got over an I/O error");
        }
        note::nontrivial();
        return Ok(());
    }
    if r.why.contains("/brotli-") {
        note::probe("brotli panicked");
        return Ok(());
    }
    if r.failed.is_none() {
        return v("refused", format!("{}: exit status {} though nothing was wrong: {}", what, r.code, r.why));
    }
    note::probe("I/O error reported");
    note::nontrivial();
    Ok(())
}
fn same(want: &[u8]) -> impl Fn(&[u8]) -> Res<()> + '_ {
    move |got| if got == want { Ok(()) } else { v("wrong-data", diff(got, want)) }
}
fn decodes_to(want: &[u8]) -> impl Fn(&[u8]) -> Res<()> + '_ {
    move |got| {
        let o = decode(Front::Rust, false, false, 10, got, &Slicing::whole(1 << 16), RUNAWAY)?;
        expect_data("decoder", &o, want, got.len())
    }
}

// C15: the tool's exit status can be relied on
pub fn c15() -> Res<()> {
    match choice::pick(P, 8) {
        0 | 1 => {
            // compression, with or without -c
            let data = gen::data(20_000);
            let mut f = flags(true);
            if choice::chance(P, 2, 3) {
                f.push("-c".to_string());
            }
            let r = tool(f, &data, Troubles::draw())?;
            judge("compression", &r, &mut decodes_to(&data))?;
            if r.code == 0 && choice::chance(P, 1, 3) {
                // and back
                let mut f = flags(false);
                f.push("-d".to_string());
                let r = tool(f, &r.out, Troubles::draw())?;
                judge("decompression", &r, &mut same(&data))?;
            }
            Ok(())
        },
        2 | 3 | 4 => {
            let val = valid(20_000, true)?;
            let mut f = flags(false);
            if choice::chance(P, 2, 3) {
                f.push("-d".to_string());
                if choice::chance(P, 1, 5) {
                    f.push(choice::pick_of(P, &["-skipcrc", "-nocrc"]).to_string());
                }
            } else {
                // told by its magic number
                note::probe("told by magic number");
            }
            let r = tool(f, &val.bytes, Troubles::draw())?;
            let done = judge("decompression", &r, &mut same(&val.data));
            done
        },
        5 | 6 => {
            let val = valid(12_000, true)?;
            let mut bytes = val.bytes.clone();
            if choice::chance(F, 1, 2) {
                let k = bytes.len();
                bytes.truncate(k - 1 - choice::size(F, 0, k as u64 - 1) as usize);
                note::fault("truncated stream");
            } else {
                damage(&mut bytes);
            }
            let cut = bytes.len() < val.bytes.len() && val.bytes.starts_with(&bytes);
            let mut f = flags(false);
            let by_magic = choice::chance(P, 1, 3);
            if !by_magic {
                f.push("-d".to_string());
            } else if !bytes.starts_with(&val.bytes[..4.min(val.bytes.len())]) {
                // no stream any more as far as anybody can tell
                return Ok(());
            }
            let r = tool(f, &bytes, Troubles::draw())?;
            note::nontrivial();
            if r.code == 0 && cut {
                return v("truncated-taken", format!("{} of {} bytes of a stream decompressed with exit status 0", bytes.len(), val.bytes.len()));
            }
            if r.code == 0 && r.out != val.data {
                return v("damage-taken", format!("exit status 0 on a damaged stream: {}", diff(&r.out, &val.data)));
            }
            Ok(())
        },
        _ => {
            // commands as text
            let window = choice::pick_of(P, &[10u32, 10, 11, 12, 16, 18]);
            let (cmds, want) = commands::sequence(window, 200);
            let text = commands::text(window, &cmds);
            if choice::chance(P, 1, 2) {
                let mut f = flags(false);
                f.push("-d".to_string());
                f.push("--recode".to_string());
                let r = tool(f, text.as_bytes(), Troubles::draw())?;
                judge("interpretation", &r, &mut same(&want))
            } else {
                let mut f = flags(true);
                f.push("-i".to_string());
                let r = tool(f, text.as_bytes(), Troubles::draw())?;
                judge("coding of commands", &r, &mut decodes_to(&want))
            }
        },
    }
}
