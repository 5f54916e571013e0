//! Allocators the simulator hands to the library.
//!
//! `SimAlloc` is a Rust allocator, `CAlloc` the pair of C callbacks. Both keep
//! a ledger of every block: who asked for it, whether it came back, and whether
//! it came back once. The C blocks have red zones, hold junk when handed out,
//! and are poisoned and kept aside when returned, so that a stray write shows.

use crate::choice::{self, Stream};
use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Mutex;

#[derive(Default)]
pub struct Ledger {
    next: u64,
    live: BTreeMap<u64, (u32, usize, &'static str)>,
    pub allocs: u64,
    pub frees: u64,
    pub bytes: u64,
    /// blocks that went out of scope without being given back
    pub dropped: Vec<(u32, usize, &'static str)>,
    pub wrong: Vec<String>,
}
static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);
fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Ledger::default))
}
pub fn reset() {
    *LEDGER.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn put(l: Ledger) {
    *LEDGER.lock().unwrap_or_else(|e| e.into_inner()) = Some(l);
}
pub fn take() -> Ledger {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}
impl Ledger {
    pub fn outstanding(&self) -> Vec<(u32, usize, &'static str)> {
        self.live.values().cloned().collect()
    }
}

pub struct SimAlloc<T> {
    owner: u32,
    _p: PhantomData<T>,
}
impl<T> SimAlloc<T> {
    pub fn new(owner: u32) -> Self {
        SimAlloc { owner, _p: PhantomData }
    }
    pub fn owner(&self) -> u32 {
        self.owner
    }
}
pub struct SimMem<T> {
    id: u64,
    data: Box<[T]>,
}
impl<T> Default for SimMem<T> {
    fn default() -> Self {
        SimMem { id: 0, data: Vec::new().into_boxed_slice() }
    }
}
impl<T> SliceWrapper<T> for SimMem<T> {
    fn slice(&self) -> &[T] {
        &self.data
    }
}
impl<T> SliceWrapperMut<T> for SimMem<T> {
    fn slice_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T> std::ops::Index<usize> for SimMem<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.data[i]
    }
}
impl<T> std::ops::IndexMut<usize> for SimMem<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.data[i]
    }
}
impl<T> Drop for SimMem<T> {
    fn drop(&mut self) {
        if self.id != 0 {
            let id = self.id;
            ledger(|l| {
                if let Some(e) = l.live.remove(&id) {
                    l.dropped.push(e);
                }
            });
        }
    }
}
impl<T: Clone + Default> Allocator<T> for SimAlloc<T> {
    type AllocatedMemory = SimMem<T>;
    fn alloc_cell(&mut self, n: usize) -> SimMem<T> {
        if n == 0 {
            return SimMem::default();
        }
        let owner = self.owner;
        let id = ledger(|l| {
            l.next += 1;
            l.allocs += 1;
            l.bytes += (n * std::mem::size_of::<T>()) as u64;
            let id = l.next;
            l.live.insert(id, (owner, n, std::any::type_name::<T>()));
            id
        });
        SimMem { id, data: vec![T::default(); n].into_boxed_slice() }
    }
    fn free_cell(&mut self, mut m: SimMem<T>) {
        if m.id == 0 {
            return;
        }
        let (id, owner) = (m.id, self.owner);
        m.id = 0;
        ledger(|l| {
            l.frees += 1;
            match l.live.remove(&id) {
                None => l.wrong.push(format!("block {} given back twice", id)),
                Some((o, n, t)) if o != owner => l.wrong.push(format!("block of {} {} from allocator {} given back to allocator {}", n, t, o, owner)),
                Some(_) => {},
            }
        });
    }
}

/// What the C side passes.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CAllocator {
    pub alloc_func: Option<extern "C" fn(*mut u8, usize) -> *mut u8>,
    pub free_func: Option<extern "C" fn(*mut u8, *mut u8)>,
    pub opaque: *mut u8,
}

const RED: usize = 64;
const RED_BYTE: u8 = 0xa5;
const POISON: u8 = 0xdb;
struct Block {
    base: usize,
    size: usize,
    junk: u8,
}
#[derive(Default)]
pub struct CHeap {
    live: BTreeMap<usize, Block>,
    parked: BTreeMap<usize, Block>,
    parked_bytes: usize,
    pub wrong: Vec<String>,
    pub allocs: u64,
    pub frees: u64,
    pub zero_sized: u64,
    pub peak: usize,
    now: usize,
    /// the allocation (counted from 1) that returns no memory; 0 = none
    pub fail_at: u64,
    pub failed: u64,
    opaque: usize,
}
static CHEAP: Mutex<Option<CHeap>> = Mutex::new(None);
fn cheap<R>(f: impl FnOnce(&mut CHeap) -> R) -> R {
    let mut g = CHEAP.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(CHeap::default))
}
extern "C" fn c_alloc(opaque: *mut u8, size: usize) -> *mut u8 {
    cheap(|h| {
        h.allocs += 1;
        if opaque as usize != h.opaque {
            h.wrong.push(format!("allocation callback got opaque {:x}, not {:x}", opaque as usize, h.opaque));
        }
        if h.fail_at != 0 && h.allocs == h.fail_at {
            h.failed += 1;
            return std::ptr::null_mut();
        }
        if size == 0 {
            h.zero_sized += 1;
        }
        let layout = std::alloc::Layout::from_size_align(size + 2 * RED, 64).unwrap();
        let base = unsafe { std::alloc::alloc(layout) };
        if base.is_null() {
            return base;
        }
        let junk = (h.allocs as u8).wrapping_mul(37) | 1;
        unsafe {
            std::ptr::write_bytes(base, RED_BYTE, RED);
            for (at, n) in spots(size) {
                std::ptr::write_bytes(base.add(RED + at), junk, n);
            }
            std::ptr::write_bytes(base.add(RED + size), RED_BYTE, RED);
        }
        let p = base as usize + RED;
        h.now += size;
        h.peak = h.peak.max(h.now);
        h.live.insert(p, Block { base: base as usize, size, junk });
        p as *mut u8
    })
}
/// The parts of a block that hold junk or poison: all of a small block, the
/// ends and a stripe in every page of a big one.
fn spots(size: usize) -> impl Iterator<Item = (usize, usize)> {
    const EDGE: usize = 4096;
    let small = size <= 16 * EDGE;
    let pages = if small { 0 } else { size / EDGE - 2 };
    let first = if small { (0, size) } else { (0, EDGE) };
    let last = if small { (0, 0) } else { (size - EDGE, EDGE) };
    [first, last].into_iter().chain((0..pages).map(|k| ((k + 1) * EDGE, 32)))
}
fn red_ok(b: &Block) -> bool {
    unsafe {
        let lo = std::slice::from_raw_parts(b.base as *const u8, RED);
        let hi = std::slice::from_raw_parts((b.base + RED + b.size) as *const u8, RED);
        lo.iter().chain(hi.iter()).all(|x| *x == RED_BYTE)
    }
}
extern "C" fn c_free(opaque: *mut u8, ptr: *mut u8) {
    cheap(|h| {
        h.frees += 1;
        if opaque as usize != h.opaque {
            h.wrong.push(format!("free callback got opaque {:x}, not {:x}", opaque as usize, h.opaque));
        }
        match h.live.remove(&(ptr as usize)) {
            None => {
                let twice = h.parked.contains_key(&(ptr as usize));
                h.wrong.push(if twice { "a block was freed twice".to_string() } else { "a pointer that was never handed out was freed".to_string() });
            },
            Some(b) => {
                if !red_ok(&b) {
                    h.wrong.push(format!("write outside a block of {} bytes", b.size));
                }
                h.now -= b.size;
                for (at, n) in spots(b.size) {
                    unsafe { std::ptr::write_bytes((b.base + RED + at) as *mut u8, POISON, n) };
                }
                h.parked_bytes += b.size;
                h.parked.insert(ptr as usize, b);
                if h.parked_bytes > 200 << 20 {
                    h.flush_parked();
                }
            },
        }
    })
}
impl CHeap {
    fn flush_parked(&mut self) {
        for (_, b) in std::mem::take(&mut self.parked) {
            let body = unsafe { std::slice::from_raw_parts((b.base + RED) as *const u8, b.size) };
            if !spots(b.size).all(|(at, n)| body[at..at + n].iter().all(|x| *x == POISON)) || !red_ok(&b) {
                self.wrong.push(format!("write to a freed block of {} bytes", b.size));
            }
            unsafe { std::alloc::dealloc(b.base as *mut u8, std::alloc::Layout::from_size_align(b.size + 2 * RED, 64).unwrap()) };
        }
        self.parked_bytes = 0;
    }
    pub fn outstanding(&self) -> Vec<usize> {
        self.live.values().map(|b| b.size).collect()
    }
}
/// Callbacks of a fresh simulated C heap.
pub fn c_heap(fail_at: u64) -> CAllocator {
    let opaque = 0x1000 + choice::pick(Stream::Plan, 1 << 20) as usize * 16;
    let _ = c_take();
    cheap(|h| {
        h.fail_at = fail_at;
        h.opaque = opaque;
    });
    CAllocator { alloc_func: Some(c_alloc), free_func: Some(c_free), opaque: opaque as *mut u8 }
}
pub fn c_allocs() -> u64 {
    cheap(|h| h.allocs)
}
/// Blocks out, and the bytes in them.
pub fn c_live() -> (usize, usize) {
    cheap(|h| (h.live.len(), h.now))
}
pub fn c_fail_next(n: u64) {
    cheap(|h| h.fail_at = h.allocs + n)
}
/// Ends the C heap's life and hands over its books. What was never freed is
/// released here after its red zones were checked.
pub fn c_take() -> CHeap {
    let mut h = CHEAP.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
    h.flush_parked();
    for b in h.live.values() {
        if !red_ok(b) {
            h.wrong.push(format!("write outside a block of {} bytes", b.size));
        }
        let _ = b.junk;
        unsafe { std::alloc::dealloc(b.base as *mut u8, std::alloc::Layout::from_size_align(b.size + 2 * RED, 64).unwrap()) };
    }
    h
}
pub const NO_ALLOC: CAllocator = CAllocator { alloc_func: None, free_func: None, opaque: std::ptr::null_mut() };
