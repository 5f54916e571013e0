//! Deterministic scheduler behind the crate's `std` seam.
//!
//! Every simulated thread is a real OS thread, but only the one the scheduler
//! named runs; the others are parked. Control changes hands only inside the
//! seam operations (lock, unlock, wait, notify, spawn, join, sleep, yield), so
//! the sequence of choices below is the whole interleaving.

use crate::choice::{self, Rng, Stream};
use divans::std::sim::Runtime;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Runnable,
    Lock(usize),
    Cond(usize, Option<u64>),
    Join(usize),
    Sleep(u64),
    Done,
}

struct Parker {
    go: Mutex<bool>,
    cv: Condvar,
}
impl Parker {
    fn new() -> Arc<Parker> {
        Arc::new(Parker { go: Mutex::new(false), cv: Condvar::new() })
    }
    fn park(&self) {
        let mut g = self.go.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
        *g = false;
    }
    fn unpark(&self) {
        *self.go.lock().unwrap() = true;
        self.cv.notify_one();
    }
}

struct Thread {
    status: Status,
    parker: Arc<Parker>,
    timed_out: bool,
    prio: u64,
    os: Option<std::thread::JoinHandle<()>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// switch only when the running thread blocks
    Cooperative,
    /// each point: switch with probability 1/den
    Random { den: u64 },
    /// priorities with a few change points (PCT)
    Priority { changes: u64 },
    /// one thread is held back except when nothing else can run
    Starve { tid: usize },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub policy: Policy,
    /// one in this many points wakes a waiter for no reason; 0 = never
    pub spurious: u64,
    /// one in this many clock reads jumps; 0 = never
    pub clock_jump: u64,
    /// after this many steps faults stop and the schedule turns uniform
    pub fault_steps: u64,
    /// steps allowed without progress once faults have stopped
    pub fair_steps: u64,
}
impl Config {
    pub fn plain() -> Config {
        Config { policy: Policy::Cooperative, spurious: 0, clock_jump: 0, fault_steps: 0, fair_steps: 2_000_000 }
    }
    /// A random policy, drawn from the run's plan.
    pub fn draw() -> Config {
        let policy = match choice::weighted(Stream::Plan, &[2, 4, 4, 3, 3, 2, 2]) {
            0 => Policy::Cooperative,
            1 => Policy::Random { den: 2 },
            2 => Policy::Random { den: 6 },
            3 => Policy::Random { den: 40 },
            4 => Policy::Priority { changes: 1 + choice::pick(Stream::Plan, 6) },
            5 => Policy::Starve { tid: 0 },
            _ => Policy::Starve { tid: 1 },
        };
        let spurious = [0, 0, 50, 8][choice::pick(Stream::Plan, 4) as usize];
        let clock_jump = [0, 2][choice::pick(Stream::Plan, 2) as usize];
        Config { policy, spurious, clock_jump, fault_steps: 30_000, fair_steps: 200_000 }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spurious: u64,
    pub clock_jumps: u64,
    pub notifies: u64,
    pub lost_notifies: u64,
    pub waits: u64,
    pub spawned: u64,
    pub blocked_on_lock: u64,
    pub starved_steps: u64,
    pub sim_nanos: u64,
    /// hash of the interleaving: (thread, operation, object) in order
    pub history: u64,
}


struct State {
    kill: bool,
    cfg: Config,
    threads: Vec<Thread>,
    current: usize,
    locks: BTreeMap<usize, usize>,
    next_id: usize,
    now: u64,
    skew: u64,
    stats: Stats,
    /// the step of the last progress the client saw
    progress: u64,
    panics: Vec<(usize, String)>,
    prio: Rng,
    change_points: Vec<u64>,
    states: HashSet<u64>,
}

pub struct Sim {
    st: Mutex<Option<State>>,
}
static SIM: Sim = Sim { st: Mutex::new(None) };
/// Called on deadlock and on exhausted step bounds; must not return.
static FATAL: Mutex<Option<fn(&str, String) -> !>> = Mutex::new(None);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}
struct Killed;

#[derive(Clone, Copy)]
enum Op {
    Lock = 1,
    TryLock,
    Unlock,
    Wait,
    Notify,
    Spawn,
    Join,
    Yield,
    Sleep,
    Finish,
    Client,
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23)
}

fn fatal(kind: &str, detail: String) -> ! {
    let f = FATAL.lock().unwrap_or_else(|e| e.into_inner()).expect("no fatal handler");
    f(kind, detail)
}

impl State {
    fn describe(&self) -> String {
        let mut out = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if i != 0 {
                out.push_str("; ");
            }
            let who = if i == 0 { "client".to_string() } else { format!("worker{}", i) };
            let what = match t.status {
                Status::Runnable => "runnable".to_string(),
                Status::Lock(l) => format!("blocked on lock {}", l),
                Status::Cond(c, _) => format!("waiting on condition variable {}", c),
                Status::Join(j) => format!("joining thread {}", j),
                Status::Sleep(_) => "sleeping".to_string(),
                Status::Done => "finished".to_string(),
            };
            out.push_str(&format!("{} {}", who, what));
        }
        for (t, m) in &self.panics {
            out.push_str(&format!("; worker{} had panicked: {}", t, m));
        }
        out
    }
    fn record(&mut self, tid: usize, op: Op, obj: usize) {
        self.stats.steps += 1;
        self.now += 1_000;
        self.stats.history = mix(self.stats.history, (tid as u64) << 40 | (op as u64) << 32 | obj as u64);
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for t in &self.threads {
            let s = match t.status {
                Status::Runnable => 1,
                Status::Lock(l) => 100 + l as u64,
                Status::Cond(c, _) => 10_000 + c as u64,
                Status::Join(j) => 1_000_000 + j as u64,
                Status::Sleep(_) => 2,
                Status::Done => 3,
            };
            h = mix(h, s);
        }
        for (l, o) in &self.locks {
            h = mix(h, (*l as u64) << 20 | *o as u64);
        }
        h = mix(h, (tid as u64) << 8 | op as u64);
        self.states.insert(h);
        if self.stats.steps > self.progress.max(self.cfg.fault_steps) + self.cfg.fair_steps {
            let d = format!("{} steps without a byte in or out after faults stopped (step {}): {}", self.cfg.fair_steps, self.stats.steps, self.describe());
            fatal("no-progress", d);
        }
        if self.faulty() && self.cfg.spurious != 0 {
            let waiting: Vec<usize> = (0..self.threads.len()).filter(|i| matches!(self.threads[*i].status, Status::Cond(..))).collect();
            if !waiting.is_empty() && choice::chance(Stream::Fault, 1, self.cfg.spurious) {
                let w = waiting[choice::pick(Stream::Fault, waiting.len() as u64) as usize];
                self.threads[w].status = Status::Runnable;
                self.threads[w].timed_out = false;
                self.stats.spurious += 1;
            }
        }
        if let Policy::Priority { .. } = self.cfg.policy {
            if self.change_points.contains(&self.stats.steps) {
                let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                self.threads[tid].prio = low.saturating_sub(1);
            }
        }
    }
    fn faulty(&self) -> bool {
        self.stats.steps <= self.cfg.fault_steps
    }
    /// The thread to run next; None if there is none.
    fn choose(&mut self, me: usize) -> Option<usize> {
        let now = self.now;
        for t in self.threads.iter_mut() {
            match t.status {
                Status::Sleep(at) | Status::Cond(_, Some(at)) if at <= now => {
                    t.timed_out = true;
                    t.status = Status::Runnable;
                },
                _ => {},
            }
        }
        let mut able: Vec<usize> = Vec::new();
        if self.threads[me].status == Status::Runnable {
            able.push(me);
        }
        for i in 0..self.threads.len() {
            if i != me && self.threads[i].status == Status::Runnable {
                able.push(i);
            }
        }
        if able.is_empty() {
            let mut first: Option<(u64, usize)> = None;
            for (i, t) in self.threads.iter().enumerate() {
                let at = match t.status {
                    Status::Sleep(at) | Status::Cond(_, Some(at)) => at,
                    _ => continue,
                };
                if first.map_or(true, |f| at < f.0) {
                    first = Some((at, i));
                }
            }
            let (at, i) = first?;
            if at != u64::MAX {
                self.now = self.now.max(at);
            }
            self.threads[i].timed_out = true;
            self.threads[i].status = Status::Runnable;
            return Some(i);
        }
        if able.len() == 1 {
            return Some(able[0]);
        }
        let n = able.len() as u64;
        let stay = able[0] == me;
        let at = if !self.faulty() && self.cfg.fault_steps != 0 {
            choice::pick(Stream::Sched, n)
        } else {
            match self.cfg.policy {
                Policy::Cooperative => choice::decide(Stream::Sched, n, |r| if stay { 0 } else { r.below(n) }),
                Policy::Random { den } => choice::decide(Stream::Sched, n, |r| {
                    if stay && r.below(den) != 0 { 0 } else { r.below(n) }
                }),
                Policy::Priority { .. } => {
                    let best = (0..able.len()).max_by_key(|i| self.threads[able[*i]].prio).unwrap() as u64;
                    choice::decide(Stream::Sched, n, |_| best)
                },
                Policy::Starve { tid } => {
                    self.stats.starved_steps += able.contains(&tid) as u64;
                    choice::decide(Stream::Sched, n, |r| {
                        let k = r.below(n);
                        if able[k as usize] != tid { return k; }
                        (k + 1) % n
                    })
                },
            }
        };
        let next = able[at as usize];
        if stay && next != me {
            self.stats.preemptions += 1;
        }
        Some(next)
    }
}

impl Sim {
    fn state(&self) -> std::sync::MutexGuard<'_, Option<State>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn live(&self) -> Option<(usize, std::sync::MutexGuard<'_, Option<State>>)> {
        let me = TID.with(|t| t.get());
        let g = self.state();
        match *g {
            None => None,
            Some(ref st) => {
                if st.kill {
                    drop(g);
                    if me != 0 && !std::thread::panicking() {
                        std::panic::resume_unwind(Box::new(Killed));
                    }
                    return None;
                }
                if me == usize::MAX {
                    return None;
                }
                Some((me, g))
            },
        }
    }
    /// Gives the processor to the chosen thread; returns when `me` is chosen.
    fn hand_over(&self, me: usize, mut g: std::sync::MutexGuard<'_, Option<State>>) {
        let st = g.as_mut().unwrap();
        let next = match st.choose(me) {
            Some(n) => n,
            None => fatal("deadlock", st.describe()),
        };
        if next == me {
            return;
        }
        st.current = next;
        st.stats.switches += 1;
        let theirs = st.threads[next].parker.clone();
        let mine = st.threads[me].parker.clone();
        drop(g);
        theirs.unpark();
        mine.park();
        let g = self.state();
        if g.as_ref().map_or(false, |s| s.kill) && me != 0 {
            drop(g);
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(Killed));
            }
        }
    }
    fn point(&self, op: Op, obj: usize) {
        if let Some((me, mut g)) = self.live() {
            g.as_mut().unwrap().record(me, op, obj);
            self.hand_over(me, g);
        }
    }
    fn block(&self, status: Status) {
        if let Some((me, mut g)) = self.live() {
            g.as_mut().unwrap().threads[me].status = status;
            self.hand_over(me, g);
        }
    }
    fn take(&self, lock: usize) {
        loop {
            match self.live() {
                None => return,
                Some((me, mut g)) => {
                    let st = g.as_mut().unwrap();
                    if !st.locks.contains_key(&lock) {
                        st.locks.insert(lock, me);
                        return;
                    }
                    if st.locks[&lock] == me {
                        fatal("deadlock", format!("a thread locked a lock it already holds: {}", st.describe()));
                    }
                    st.stats.blocked_on_lock += 1;
                },
            }
            self.block(Status::Lock(lock));
        }
    }
    fn release(st: &mut State, lock: usize) {
        st.locks.remove(&lock);
        for t in st.threads.iter_mut() {
            if t.status == Status::Lock(lock) {
                t.status = Status::Runnable;
            }
        }
    }
    fn finish(&self, me: usize, panic: Option<String>) {
        let mut g = self.state();
        let st = match g.as_mut() {
            None => return,
            Some(st) => st,
        };
        st.threads[me].status = Status::Done;
        if st.kill {
            let p = st.threads[0].parker.clone();
            drop(g);
            p.unpark();
            return;
        }
        if let Some(p) = panic {
            st.panics.push((me, p));
        }
        for t in st.threads.iter_mut() {
            if t.status == Status::Join(me) {
                t.status = Status::Runnable;
            }
        }
        st.record(me, Op::Finish, 0);
        let next = match st.choose(me) {
            Some(n) => n,
            None => fatal("deadlock", st.describe()),
        };
        st.current = next;
        let p = st.threads[next].parker.clone();
        drop(g);
        p.unpark();
    }
}

/// The same for the other builds with threads, which have a seam of their own each.
#[cfg(feature = "builds")]
macro_rules! runtime_of {
    ($krate:ident) => {
        impl $krate::std::sim::Runtime for Sim {
            fn register(&self) -> usize {
                Runtime::register(self)
            }
            fn lock(&self, lock: usize) {
                Runtime::lock(self, lock)
            }
            fn try_lock(&self, lock: usize) -> bool {
                Runtime::try_lock(self, lock)
            }
            fn unlock(&self, lock: usize) {
                Runtime::unlock(self, lock)
            }
            fn wait(&self, cvar: usize, lock: usize, timeout: Option<Duration>) -> bool {
                Runtime::wait(self, cvar, lock, timeout)
            }
            fn notify(&self, cvar: usize, all: bool) {
                Runtime::notify(self, cvar, all)
            }
            fn spawn(&self, body: Box<dyn FnOnce() + Send + 'static>) -> usize {
                Runtime::spawn(self, body)
            }
            fn join(&self, thread: usize) {
                Runtime::join(self, thread)
            }
            fn is_finished(&self, thread: usize) -> bool {
                Runtime::is_finished(self, thread)
            }
            fn yield_now(&self) {
                Runtime::yield_now(self)
            }
            fn sleep(&self, duration: Duration) {
                Runtime::sleep(self, duration)
            }
            fn now(&self) -> Duration {
                Runtime::now(self)
            }
        }
    };
}
#[cfg(feature = "builds")]
runtime_of!(divans_table);
#[cfg(feature = "builds")]
runtime_of!(divans_blend);
impl Runtime for Sim {
    fn register(&self) -> usize {
        let mut g = self.state();
        match g.as_mut() {
            None => 0,
            Some(st) => {
                st.next_id += 1;
                st.next_id
            },
        }
    }
    fn lock(&self, lock: usize) {
        self.point(Op::Lock, lock);
        self.take(lock);
    }
    fn try_lock(&self, lock: usize) -> bool {
        self.point(Op::TryLock, lock);
        match self.live() {
            None => true,
            Some((me, mut g)) => {
                let st = g.as_mut().unwrap();
                if st.locks.contains_key(&lock) {
                    return false;
                }
                st.locks.insert(lock, me);
                true
            },
        }
    }
    fn unlock(&self, lock: usize) {
        if let Some((me, mut g)) = self.live() {
            let st = g.as_mut().unwrap();
            Self::release(st, lock);
            if std::thread::panicking() {
                return;
            }
            st.record(me, Op::Unlock, lock);
            self.hand_over(me, g);
        }
    }
    fn wait(&self, cvar: usize, lock: usize, timeout: Option<Duration>) -> bool {
        match self.live() {
            None => return false,
            Some((me, mut g)) => {
                let st = g.as_mut().unwrap();
                Self::release(st, lock);
                st.stats.waits += 1;
                st.record(me, Op::Wait, cvar);
                let deadline = timeout.map(|d| st.now + d.as_nanos() as u64);
                st.threads[me].status = Status::Cond(cvar, deadline);
                st.threads[me].timed_out = false;
                self.hand_over(me, g);
            },
        }
        let timed_out = match self.live() {
            None => false,
            Some((me, g)) => g.as_ref().unwrap().threads[me].timed_out && timeout.is_some(),
        };
        self.take(lock);
        timed_out
    }
    fn notify(&self, cvar: usize, all: bool) {
        if let Some((me, mut g)) = self.live() {
            let st = g.as_mut().unwrap();
            st.record(me, Op::Notify, cvar);
            st.stats.notifies += 1;
            let mut waiting: Vec<usize> = (0..st.threads.len()).filter(|i| matches!(st.threads[*i].status, Status::Cond(c, _) if c == cvar)).collect();
            if waiting.is_empty() {
                st.stats.lost_notifies += 1;
            }
            if !all && waiting.len() > 1 {
                let k = choice::pick(Stream::Sched, waiting.len() as u64) as usize;
                waiting = vec![waiting[k]];
            }
            for w in waiting {
                st.threads[w].status = Status::Runnable;
                st.threads[w].timed_out = false;
            }
        }
    }
    fn spawn(&self, body: Box<dyn FnOnce() + Send + 'static>) -> usize {
        let tid;
        match self.live() {
            None => return usize::MAX,
            Some((_, mut g)) => {
                let st = g.as_mut().unwrap();
                tid = st.threads.len();
                st.stats.spawned += 1;
                let parker = Parker::new();
                let theirs = parker.clone();
                let prio = 1_000_000 + st.prio.below(1_000_000);
                let os = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                    TID.with(|t| t.set(tid));
                    theirs.park();
                    let killed = SIM.state().as_ref().map_or(true, |s| s.kill);
                    let mut panic = None;
                    if !killed {
                        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                            if !p.is::<Killed>() {
                                panic = Some(crate::panics::last());
                            }
                        }
                    } else {
                        drop(body);
                    }
                    SIM.finish(tid, panic);
                }).expect("cannot start a thread");
                st.threads.push(Thread { status: Status::Runnable, parker, timed_out: false, prio, os: Some(os) });
            },
        }
        self.point(Op::Spawn, tid);
        tid
    }
    fn join(&self, thread: usize) {
        self.point(Op::Join, thread);
        loop {
            match self.live() {
                None => return,
                Some((_, g)) => {
                    if g.as_ref().unwrap().threads[thread].status == Status::Done {
                        return;
                    }
                },
            }
            self.block(Status::Join(thread));
        }
    }
    fn is_finished(&self, thread: usize) -> bool {
        self.point(Op::Yield, thread);
        self.state().as_ref().map_or(true, |s| s.threads[thread].status == Status::Done)
    }
    fn yield_now(&self) {
        if let Some((me, mut g)) = self.live() {
            let st = g.as_mut().unwrap();
            st.record(me, Op::Yield, 0);
            // a yield lets somebody else go first
            let others = (0..st.threads.len()).any(|i| i != me && st.threads[i].status == Status::Runnable);
            if others {
                st.threads[me].status = Status::Sleep(st.now + 2_000);
                self.hand_over(me, g);
                if let Some((me, mut g)) = self.live() {
                    g.as_mut().unwrap().threads[me].status = Status::Runnable;
                }
            }
        }
    }
    fn sleep(&self, duration: Duration) {
        if let Some((me, mut g)) = self.live() {
            let st = g.as_mut().unwrap();
            st.record(me, Op::Sleep, 0);
            let until = st.now + duration.as_nanos() as u64;
            st.threads[me].status = Status::Sleep(until);
            self.hand_over(me, g);
        }
    }
    fn now(&self) -> Duration {
        let mut g = self.state();
        match g.as_mut() {
            None => Duration::from_secs(1),
            Some(st) => {
                if st.cfg.clock_jump != 0 && choice::chance(Stream::Fault, 1, st.cfg.clock_jump) {
                    st.stats.clock_jumps += 1;
                    st.skew = choice::pick(Stream::Fault, 40_000_000) * 1_000_000_000;
                }
                Duration::from_nanos(1_500_000_000_000_000_000 - 20_000_000_000_000_000 + st.skew + st.now)
            },
        }
    }
}

/// Puts the calling thread, as thread 0, under the scheduler.
pub fn enter(cfg: Config, on_fatal: fn(&str, String) -> !) {
    *FATAL.lock().unwrap_or_else(|e| e.into_inner()) = Some(on_fatal);
    let mut prio = Rng::new(choice::pick(Stream::Plan, 1 << 32));
    let mut change_points = Vec::new();
    if let Policy::Priority { changes } = cfg.policy {
        for _ in 0..changes {
            change_points.push(1 + prio.below(600));
        }
    }
    let p0 = 1_000_000 + prio.below(1_000_000);
    *SIM.state() = Some(State {
        kill: false,
        cfg,
        threads: vec![Thread { status: Status::Runnable, parker: Parker::new(), timed_out: false, prio: p0, os: None }],
        current: 0,
        locks: BTreeMap::new(),
        next_id: 0,
        now: 0,
        skew: 0,
        stats: Stats::default(),
        progress: 0,
        panics: Vec::new(),
        prio,
        change_points,
        states: HashSet::new(),
    });
    TID.with(|t| t.set(0));
    divans::std::sim::install(Some(&SIM));
    #[cfg(feature = "builds")]
    {
        divans_table::std::sim::install(Some(&SIM));
        divans_blend::std::sim::install(Some(&SIM));
    }
}

/// Lets every other thread run until it finishes or blocks for good, and
/// reports the ones that have not finished.
pub fn quiesce() -> Option<String> {
    SIM.block(Status::Sleep(u64::MAX));
    let g = SIM.state();
    let st = g.as_ref()?;
    if st.threads.iter().skip(1).any(|t| t.status != Status::Done) {
        return Some(st.describe());
    }
    None
}
/// A step of the client that other threads may interleave with.
pub fn client_step() {
    SIM.point(Op::Client, 0);
}
/// The client got somewhere.
pub fn progress() {
    if let Some(s) = SIM.state().as_mut() {
        s.progress = s.stats.steps;
    }
}
pub fn worker_panics() -> Vec<(usize, String)> {
    SIM.state().as_ref().map_or(Vec::new(), |s| s.panics.clone())
}
pub fn threads() -> usize {
    SIM.state().as_ref().map_or(0, |s| s.threads.len())
}
pub fn stats() -> Stats {
    SIM.state().as_ref().map_or(Stats::default(), |s| {
        let mut st = s.stats.clone();
        st.sim_nanos = s.now;
        st
    })
}

/// Ends the run: whatever still runs or waits is unwound and disposed of.
pub fn leave() -> (Stats, HashSet<u64>) {
    let n;
    {
        let mut g = SIM.state();
        let st = g.as_mut().unwrap();
        st.kill = true;
        n = st.threads.len();
    }
    for t in 1..n {
        let (theirs, mine, os, done);
        {
            let mut g = SIM.state();
            let st = g.as_mut().unwrap();
            done = st.threads[t].status == Status::Done;
            theirs = st.threads[t].parker.clone();
            mine = st.threads[0].parker.clone();
            os = st.threads[t].os.take();
        }
        if !done {
            theirs.unpark();
            mine.park();
        }
        if let Some(os) = os {
            let _ = os.join();
        }
    }
    divans::std::sim::install(None);
    #[cfg(feature = "builds")]
    {
        divans_table::std::sim::install(None);
        divans_blend::std::sim::install(None);
    }
    TID.with(|t| t.set(usize::MAX));
    let st = SIM.state().take().unwrap();
    let mut stats = st.stats;
    stats.sim_nanos = st.now;
    (stats, st.states)
}
