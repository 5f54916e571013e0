//! The command line tool, as a function.
#![allow(warnings)]
extern crate simstd;

// what it prints goes to its own standard output
macro_rules! print {
    ($($x:tt)*) => { { use simstd::io::Write as W__; write!(&mut simstd::io::stdout(), $($x)*).unwrap(); } };
}
macro_rules! println {
    ($($x:tt)*) => { { use simstd::io::Write as W__; writeln!(&mut simstd::io::stdout(), $($x)*).unwrap(); } };
}
macro_rules! eprint {
    ($($x:tt)*) => { { use simstd::io::Write as W__; write!(&mut simstd::io::stderr(), $($x)*).unwrap(); } };
}
macro_rules! eprintln {
    ($($x:tt)*) => { { use simstd::io::Write as W__; writeln!(&mut simstd::io::stderr(), $($x)*).unwrap(); } };
}
include!(concat!(env!("OUT_DIR"), "/cli.rs"));

/// Runs it to its end and gives the exit status main leaves.
pub fn run() -> i32 {
    simstd::Ends::code(main())
}
