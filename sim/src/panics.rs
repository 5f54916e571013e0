//! Panics are silent here; the message and place of the last one is kept.
use std::cell::RefCell;
thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install() {
    let trace = std::env::var_os("DIVSIM_BACKTRACE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(e) = info.payload().downcast_ref::<divans::ErrMsg>() {
            format!("{:?}", e)
        } else {
            "?".to_string()
        };
        let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if trace {
            eprintln!("{} at {}\n{}", msg, at, std::backtrace::Backtrace::force_capture());
        }
        if msg.contains("cannot unwind") {
            let first = last();
            crate::run::on_abort(first);
        }
        LAST.with(|l| *l.borrow_mut() = format!("{} at {}", msg, at));
    }));
}
pub fn last() -> String {
    LAST.with(|l| l.borrow().clone())
}
/// Runs `f`; a panic becomes its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last())
}
