//! What a run covered: probes, faults that fired, a description.
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Default, Clone)]
pub struct Notes {
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub desc: String,
    pub print: u64,
    pub nontrivial: bool,
}
static N: Mutex<Option<Notes>> = Mutex::new(None);
fn with<R>(f: impl FnOnce(&mut Notes) -> R) -> R {
    let mut g = N.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Notes::default))
}
pub fn reset() {
    *N.lock().unwrap_or_else(|e| e.into_inner()) = Some(Notes::default());
}
pub fn take() -> Notes {
    N.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}
pub fn restore(n: Notes) {
    *N.lock().unwrap_or_else(|e| e.into_inner()) = Some(n);
}
pub fn snapshot() -> Notes {
    with(|n| n.clone())
}
/// A situation that was reached.
pub fn probe(what: &str) {
    probe_n(what, 1)
}
pub fn probe_n(what: &str, k: u64) {
    with(|n| *n.probes.entry(what.to_string()).or_insert(0) += k)
}
/// A fault that was injected.
pub fn fault(what: &str) {
    with(|n| *n.faults.entry(what.to_string()).or_insert(0) += 1)
}
pub fn desc(s: &str) {
    with(|n| {
        if !n.desc.is_empty() {
            n.desc.push_str("; ");
        }
        n.desc.push_str(s);
    })
}
/// Folds an observation into the run's fingerprint.
pub fn print(v: u64) {
    with(|n| {
        n.print = (n.print ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    })
}
pub fn nontrivial() {
    with(|n| n.nontrivial = true)
}
