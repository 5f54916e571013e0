//! What the command line tool sees as `std`: the real one, but files, standard
//! streams, arguments and the end of the process are the simulator's.
use std::cell::RefCell;
use std::rc::Rc;

pub use std::{any, borrow, boxed, cell, clone, cmp, collections, convert, default, error, ffi, fmt, hash, iter, marker, mem, num, ops, option, panic, path, ptr, rc, result, slice, str, string, sync, thread, time, u16, u32, u64, u8, usize, vec};

pub struct How {
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub truncate: bool,
    pub create: bool,
    pub create_new: bool,
}
/// The operating system.
pub trait Host {
    fn args(&mut self) -> Vec<String>;
    fn open(&mut self, path: &str, how: &How) -> io::Result<u32>;
    fn close(&mut self, fd: u32);
    fn read(&mut self, fd: u32, buf: &mut [u8]) -> io::Result<usize>;
    fn write(&mut self, fd: u32, buf: &[u8]) -> io::Result<usize>;
    fn seek(&mut self, fd: u32, to: io::SeekFrom) -> io::Result<u64>;
    fn sync(&mut self, fd: u32) -> io::Result<()>;
    fn set_len(&mut self, fd: u32, len: u64) -> io::Result<()>;
    fn len(&mut self, fd: u32) -> io::Result<u64>;
    fn remove(&mut self, path: &str) -> io::Result<()>;
    fn rename(&mut self, from: &str, to: &str) -> io::Result<()>;
    fn exists(&mut self, path: &str) -> bool;
}
thread_local! {
    static HOST: RefCell<Option<Rc<RefCell<dyn Host>>>> = const { RefCell::new(None) };
    static OUT: RefCell<Option<std::io::LineWriter<Fd>>> = const { RefCell::new(None) };
    static IN: RefCell<Option<std::io::BufReader<Fd>>> = const { RefCell::new(None) };
}
fn host<R>(f: impl FnOnce(&mut dyn Host) -> R) -> R {
    let h = HOST.with(|h| h.borrow().clone()).expect("no simulated host");
    let mut h = h.borrow_mut();
    f(&mut *h)
}
/// The process called exit.
pub struct Exit(pub i32);

/// Runs `main` as a process of `h`: its result, or what it panicked with. What
/// is left in the buffer of its standard output is written at the end, and
/// whether that works nobody is told, as with the real one.
pub fn process_of(h: Rc<RefCell<dyn Host>>, main: impl FnOnce() -> i32) -> Result<i32, Box<dyn any::Any + Send>> {
    HOST.with(|x| *x.borrow_mut() = Some(h));
    OUT.with(|x| *x.borrow_mut() = Some(std::io::LineWriter::new(Fd(1))));
    IN.with(|x| *x.borrow_mut() = Some(std::io::BufReader::new(Fd(0))));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(main));
    let r = match r {
        Err(e) => match e.downcast::<Exit>() {
            Ok(x) => Ok(x.0),
            Err(e) => Err(e),
        },
        r => r,
    };
    let r2 = panic::catch_unwind(panic::AssertUnwindSafe(|| drop(OUT.with(|x| x.borrow_mut().take()))));
    IN.with(|x| *x.borrow_mut() = None);
    HOST.with(|x| *x.borrow_mut() = None);
    r2?;
    r
}
/// What main may return.
pub trait Ends {
    fn code(self) -> i32;
}
impl Ends for () {
    fn code(self) -> i32 {
        0
    }
}
impl<T: Ends, E: fmt::Debug> Ends for Result<T, E> {
    fn code(self) -> i32 {
        match self {
            Ok(x) => x.code(),
            Err(_) => 1,
        }
    }
}
impl Ends for process::ExitCode {
    fn code(self) -> i32 {
        self.0 as i32
    }
}
impl Ends for i32 {
    fn code(self) -> i32 {
        self
    }
}

/// A descriptor, without a buffer.
pub struct Fd(u32);
impl std::io::Read for Fd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        host(|h| h.read(self.0, b))
    }
}
impl std::io::Write for Fd {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        host(|h| h.write(self.0, b))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub mod env {
    pub use std::env::{Args as RealArgs, VarError};
    pub fn args() -> std::vec::IntoIter<String> {
        super::host(|h| h.args()).into_iter()
    }
    pub fn args_os() -> std::vec::IntoIter<std::ffi::OsString> {
        super::host(|h| h.args()).into_iter().map(|s| s.into()).collect::<Vec<_>>().into_iter()
    }
    pub fn var(_: &str) -> Result<String, VarError> {
        Err(VarError::NotPresent)
    }
    pub fn var_os(_: &str) -> Option<std::ffi::OsString> {
        None
    }
}
pub mod process {
    pub struct ExitCode(pub u8);
    impl ExitCode {
        pub const SUCCESS: ExitCode = ExitCode(0);
        pub const FAILURE: ExitCode = ExitCode(1);
    }
    impl From<u8> for ExitCode {
        fn from(x: u8) -> ExitCode {
            ExitCode(x)
        }
    }
    pub fn exit(code: i32) -> ! {
        std::panic::resume_unwind(Box::new(super::Exit(code)))
    }
    pub fn abort() -> ! {
        std::panic::resume_unwind(Box::new(super::Exit(134)))
    }
    pub fn id() -> u32 {
        4711
    }
}
pub mod io {
    pub use std::io::*;
    use super::{IN, OUT};
    pub struct Stdin;
    pub struct StdinLock;
    pub struct Stdout;
    pub struct Stderr;
    pub type StdoutLock = Stdout;
    pub type StderrLock = Stderr;
    pub fn stdin() -> Stdin {
        Stdin
    }
    pub fn stdout() -> Stdout {
        Stdout
    }
    pub fn stderr() -> Stderr {
        Stderr
    }
    fn with_in<R>(f: impl FnOnce(&mut BufReader<super::Fd>) -> R) -> R {
        IN.with(|x| f(x.borrow_mut().as_mut().expect("stdin of no process")))
    }
    fn with_out<R>(f: impl FnOnce(&mut LineWriter<super::Fd>) -> R) -> R {
        OUT.with(|x| f(x.borrow_mut().as_mut().expect("stdout of no process")))
    }
    impl Stdin {
        pub fn lock(&self) -> StdinLock {
            StdinLock
        }
        pub fn read_line(&self, s: &mut String) -> Result<usize> {
            with_in(|i| i.read_line(s))
        }
    }
    impl Read for Stdin {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            with_in(|i| i.read(b))
        }
    }
    impl Read for StdinLock {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            with_in(|i| i.read(b))
        }
    }
    impl BufRead for StdinLock {
        fn fill_buf(&mut self) -> Result<&[u8]> {
            // the buffer stays where it is until the next call
            with_in(|i| i.fill_buf().map(|s| unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) }))
        }
        fn consume(&mut self, n: usize) {
            with_in(|i| i.consume(n))
        }
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            with_out(|o| o.write(b))
        }
        fn flush(&mut self) -> Result<()> {
            with_out(|o| o.flush())
        }
    }
    impl Stderr {
        pub fn lock(&self) -> Stderr {
            Stderr
        }
    }
    impl Write for Stderr {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            super::host(|h| h.write(2, b))
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}
pub mod fs {
    use super::{host, How};
    use std::io::{Read, Result, Seek, SeekFrom, Write};
    use std::path::Path;
    pub struct File(u32);
    pub struct OpenOptions(How);
    pub struct Metadata(u64);
    fn text<P: AsRef<Path>>(p: P) -> String {
        p.as_ref().to_string_lossy().into_owned()
    }
    impl OpenOptions {
        pub fn new() -> OpenOptions {
            OpenOptions(How { read: false, write: false, append: false, truncate: false, create: false, create_new: false })
        }
        pub fn read(&mut self, x: bool) -> &mut Self {
            self.0.read = x;
            self
        }
        pub fn write(&mut self, x: bool) -> &mut Self {
            self.0.write = x;
            self
        }
        pub fn append(&mut self, x: bool) -> &mut Self {
            self.0.append = x;
            self
        }
        pub fn truncate(&mut self, x: bool) -> &mut Self {
            self.0.truncate = x;
            self
        }
        pub fn create(&mut self, x: bool) -> &mut Self {
            self.0.create = x;
            self
        }
        pub fn create_new(&mut self, x: bool) -> &mut Self {
            self.0.create_new = x;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
            host(|h| h.open(&text(p), &self.0)).map(File)
        }
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().read(true).open(p)
        }
        pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().write(true).create(true).truncate(true).open(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn sync_all(&self) -> Result<()> {
            host(|h| h.sync(self.0))
        }
        pub fn sync_data(&self) -> Result<()> {
            host(|h| h.sync(self.0))
        }
        pub fn set_len(&self, n: u64) -> Result<()> {
            host(|h| h.set_len(self.0, n))
        }
        pub fn metadata(&self) -> Result<Metadata> {
            host(|h| h.len(self.0)).map(Metadata)
        }
    }
    impl Metadata {
        pub fn len(&self) -> u64 {
            self.0
        }
        pub fn is_file(&self) -> bool {
            true
        }
    }
    impl Drop for File {
        fn drop(&mut self) {
            host(|h| h.close(self.0))
        }
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            host(|h| h.read(self.0, b))
        }
    }
    impl Write for File {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            host(|h| h.write(self.0, b))
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, to: SeekFrom) -> Result<u64> {
            host(|h| h.seek(self.0, to))
        }
    }
    impl<'a> Read for &'a File {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            host(|h| h.read(self.0, b))
        }
    }
    impl<'a> Write for &'a File {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            host(|h| h.write(self.0, b))
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl<'a> Seek for &'a File {
        fn seek(&mut self, to: SeekFrom) -> Result<u64> {
            host(|h| h.seek(self.0, to))
        }
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
        host(|h| h.remove(&text(p)))
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<()> {
        host(|h| h.rename(&text(p), &text(q)))
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
        File::open(p)?.metadata()
    }
    pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
        let mut v = Vec::new();
        File::open(p)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
        let mut v = String::new();
        File::open(p)?.read_to_string(&mut v)?;
        Ok(v)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
        File::create(p)?.write_all(c.as_ref())
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> Result<bool> {
        Ok(host(|h| h.exists(&text(p))))
    }
}
