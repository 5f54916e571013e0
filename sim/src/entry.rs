//! The doors a user can come in by: Rust structs, C functions. Every call is
//! watched: offsets move forward and stay in range, nothing is written outside
//! the offered output window, panics are caught.

use crate::alloc::{self, CAllocator, SimAlloc};
use crate::gen::Opts;
use brotli::enc::CombiningAllocator;
use divans::{Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansDecompressorFactory, DivansOutputResult, DivansResult, StaticCommand};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Success,
    NeedIn,
    NeedOut,
    Fail(String),
}
impl From<DivansResult> for R {
    fn from(r: DivansResult) -> R {
        match r {
            DivansResult::Success => R::Success,
            DivansResult::NeedsMoreInput => R::NeedIn,
            DivansResult::NeedsMoreOutput => R::NeedOut,
            DivansResult::Failure(e) => R::Fail(format!("{:?}", e)),
        }
    }
}
impl From<DivansOutputResult> for R {
    fn from(r: DivansOutputResult) -> R {
        match r {
            DivansOutputResult::Success => R::Success,
            DivansOutputResult::NeedsMoreOutput => R::NeedOut,
            DivansOutputResult::Failure(e) => R::Fail(format!("{:?}", e)),
        }
    }
}
fn from_c(code: u8) -> R {
    match code {
        0 => R::Success,
        1 => R::NeedIn,
        2 => R::NeedOut,
        3 => R::Fail("failure".to_string()),
        x => R::Fail(format!("return code {} is not defined", x)),
    }
}

pub trait Enc {
    fn encode(&mut self, input: &[u8], ioff: &mut usize, output: &mut [u8], ooff: &mut usize) -> R;
    fn flush(&mut self, output: &mut [u8], ooff: &mut usize) -> R;
    /// Gives everything back.
    fn free(self: Box<Self>);
}
pub trait Dec {
    fn decode(&mut self, input: &[u8], ioff: &mut usize, output: &mut [u8], ooff: &mut usize) -> R;
    fn free(self: Box<Self>);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Front {
    /// the Rust types, with an allocator that keeps books
    Rust,
    /// the C functions with malloc
    C,
    /// the C functions with the caller's allocator
    CAlloc,
}

// ---- Rust ----
pub type Brotli = CombiningAllocator<
    SimAlloc<u8>, SimAlloc<u16>, SimAlloc<i32>, SimAlloc<u32>, SimAlloc<u64>,
    SimAlloc<brotli::enc::command::Command>, SimAlloc<brotli::enc::util::floatX>,
    SimAlloc<brotli::enc::v8>, SimAlloc<brotli::enc::s16>, SimAlloc<brotli::enc::PDF>,
    SimAlloc<brotli::enc::StaticCommand>, SimAlloc<brotli::enc::histogram::HistogramLiteral>,
    SimAlloc<brotli::enc::histogram::HistogramCommand>, SimAlloc<brotli::enc::histogram::HistogramDistance>,
    SimAlloc<brotli::enc::cluster::HistogramPair>, SimAlloc<brotli::enc::histogram::ContextType>,
    SimAlloc<brotli::enc::entropy_encode::HuffmanTree>, SimAlloc<brotli::enc::ZopfliNode>>;
type HybridF = divans::BrotliDivansHybridCompressorFactory<SimAlloc<u8>, SimAlloc<DefaultCDF16>, Brotli>;
type Hybrid = <HybridF as DivansCompressorFactory<SimAlloc<u8>, SimAlloc<u32>, SimAlloc<DefaultCDF16>>>::ConstructedCompressor;
type InternalF = divans::DivansCompressorFactoryStruct<SimAlloc<u8>, SimAlloc<DefaultCDF16>>;
type Internal = <InternalF as DivansCompressorFactory<SimAlloc<u8>, SimAlloc<u32>, SimAlloc<DefaultCDF16>>>::ConstructedCompressor;
type DecF = divans::DivansDecompressorFactoryStruct<SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>;
type RustDecoder = divans::DivansDecompressor<
    <DecF as DivansDecompressorFactory<SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>>::DefaultDecoder,
    SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>;

struct RustHybrid(Hybrid);
impl Enc for RustHybrid {
    fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        self.0.encode(i, io, o, oo).into()
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        self.0.flush(o, oo).into()
    }
    fn free(self: Box<Self>) {
        let (_m8, _mcdf, _brotli) = self.0.free();
    }
}
struct RustInternal(Internal);
impl Enc for RustInternal {
    fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        self.0.encode(i, io, o, oo).into()
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        self.0.flush(o, oo).into()
    }
    fn free(self: Box<Self>) {
        let (_m8, _m32, _mcdf) = self.0.free();
    }
}
struct RustDec(RustDecoder);
impl Dec for RustDec {
    fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        self.0.decode(i, io, o, oo).into()
    }
    fn free(self: Box<Self>) {
        let (_m8, _mcdf, _mc) = self.0.free();
    }
}

// ---- C ----
#[repr(C)]
pub struct Opaque([u8; 0]);
// through the C header where they are in it (shim.c)
extern "C" {
    #[cfg_attr(c_header, link_name = "shim_divans_new_compressor")]
    pub fn divans_new_compressor() -> *mut Opaque;
    #[cfg_attr(c_header, link_name = "shim_divans_new_compressor_with_custom_alloc")]
    pub fn divans_new_compressor_with_custom_alloc(a: CAllocator) -> *mut Opaque;
    #[cfg_attr(c_header, link_name = "shim_divans_set_option")]
    pub fn divans_set_option(s: *mut Opaque, selector: u8, value: u32) -> u8;
    #[cfg_attr(c_header, link_name = "shim_divans_encode")]
    pub fn divans_encode(s: *mut Opaque, i: *const u8, ilen: usize, ioff: *mut usize, o: *mut u8, olen: usize, ooff: *mut usize) -> u8;
    #[cfg_attr(c_header, link_name = "shim_divans_encode_flush")]
    pub fn divans_encode_flush(s: *mut Opaque, o: *mut u8, olen: usize, ooff: *mut usize) -> u8;
    #[cfg_attr(c_header, link_name = "shim_divans_free_compressor")]
    pub fn divans_free_compressor(s: *mut Opaque);
    #[cfg_attr(c_header, link_name = "shim_divans_new_decompressor")]
    pub fn divans_new_decompressor() -> *mut Opaque;
    pub fn divans_new_serial_decompressor() -> *mut Opaque;
    #[cfg_attr(c_header, link_name = "shim_divans_new_decompressor_with_custom_alloc")]
    pub fn divans_new_decompressor_with_custom_alloc(a: CAllocator, skip_crc: u8, multithread: u8) -> *mut Opaque;
    #[cfg_attr(c_header, link_name = "shim_divans_decode")]
    pub fn divans_decode(s: *mut Opaque, i: *const u8, ilen: usize, ioff: *mut usize, o: *mut u8, olen: usize, ooff: *mut usize) -> u8;
    #[cfg_attr(c_header, link_name = "shim_divans_free_decompressor")]
    pub fn divans_free_decompressor(s: *mut Opaque);
    pub fn divans_compressor_malloc_u8(s: *mut Opaque, n: usize) -> *mut u8;
    pub fn divans_compressor_free_u8(s: *mut Opaque, p: *mut u8, n: usize);
    pub fn divans_compressor_malloc_usize(s: *mut Opaque, n: usize) -> *mut usize;
    pub fn divans_compressor_free_usize(s: *mut Opaque, p: *mut usize, n: usize);
    pub fn divans_decompressor_malloc_u8(s: *mut Opaque, n: usize) -> *mut u8;
    pub fn divans_decompressor_free_u8(s: *mut Opaque, p: *mut u8, n: usize);
    pub fn divans_decompressor_malloc_usize(s: *mut Opaque, n: usize) -> *mut usize;
    pub fn divans_decompressor_free_usize(s: *mut Opaque, p: *mut usize, n: usize);
}
#[cfg(c_header)]
extern "C" {
    fn shim_meaning(k: u8) -> u8;
}
/// Why C programs cannot use the header, or nothing.
pub const HEADER: &str = include_str!(concat!(env!("OUT_DIR"), "/header.txt"));
/// The header's numbers for success, needs more input, needs more output, failure.
#[cfg(c_header)]
pub fn meanings() -> [u8; 4] {
    [0, 1, 2, 3].map(|k| unsafe { shim_meaning(k) })
}
#[cfg(not(c_header))]
pub fn meanings() -> [u8; 4] {
    [0, 1, 2, 3]
}
pub struct CEnc(pub *mut Opaque);
impl Enc for CEnc {
    fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        from_c(unsafe { divans_encode(self.0, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) })
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        from_c(unsafe { divans_encode_flush(self.0, o.as_mut_ptr(), o.len(), oo) })
    }
    fn free(self: Box<Self>) {
        unsafe { divans_free_compressor(self.0) }
    }
}
pub struct CDec(pub *mut Opaque);
impl Dec for CDec {
    fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        from_c(unsafe { divans_decode(self.0, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) })
    }
    fn free(self: Box<Self>) {
        unsafe { divans_free_decompressor(self.0) }
    }
}

pub fn brotli_alloc(id: u32) -> Brotli {
    CombiningAllocator::new(
        SimAlloc::new(id + 10), SimAlloc::new(id + 11), SimAlloc::new(id + 12), SimAlloc::new(id + 13), SimAlloc::new(id + 14),
        SimAlloc::new(id + 15), SimAlloc::new(id + 16), SimAlloc::new(id + 17), SimAlloc::new(id + 18), SimAlloc::new(id + 19),
        SimAlloc::new(id + 20), SimAlloc::new(id + 21), SimAlloc::new(id + 22), SimAlloc::new(id + 23), SimAlloc::new(id + 24),
        SimAlloc::new(id + 25), SimAlloc::new(id + 26), SimAlloc::new(id + 27))
}

/// A compressor. `alloc` is used by `Front::CAlloc`.
pub fn enc(front: Front, o: &Opts, id: u32, alloc: CAllocator) -> Box<dyn Enc> {
    match front {
        Front::Rust => if o.internal {
            Box::new(RustInternal(InternalF::new(SimAlloc::new(id), SimAlloc::new(id + 1), SimAlloc::new(id + 2), o.rust(), ())))
        } else {
            Box::new(RustHybrid(HybridF::new(SimAlloc::new(id), SimAlloc::<u32>::new(id + 1), SimAlloc::new(id + 2), o.rust(), brotli_alloc(id))))
        },
        Front::C | Front::CAlloc => {
            let s = unsafe {
                if front == Front::C { divans_new_compressor() } else { divans_new_compressor_with_custom_alloc(alloc) }
            };
            for (sel, v) in o.c() {
                let r = unsafe { divans_set_option(s, sel, v) };
                assert!(r == 0, "divans_set_option({}, {}) returned {}", sel, v, r);
            }
            Box::new(CEnc(s))
        },
    }
}
pub fn dec(front: Front, skip_crc: bool, multi: bool, id: u32, alloc: CAllocator) -> Box<dyn Dec> {
    match front {
        Front::Rust => Box::new(RustDec(DecF::new(SimAlloc::new(id), SimAlloc::new(id + 1), SimAlloc::new(id + 2), skip_crc, multi))),
        Front::C if !skip_crc => Box::new(CDec(unsafe { if multi { divans_new_decompressor() } else { divans_new_serial_decompressor() } })),
        Front::C => Box::new(CDec(unsafe { divans_new_decompressor_with_custom_alloc(alloc::NO_ALLOC, skip_crc as u8, multi as u8) })),
        Front::CAlloc => Box::new(CDec(unsafe { divans_new_decompressor_with_custom_alloc(alloc, skip_crc as u8, multi as u8) })),
    }
}

/// Blocks the Rust allocators were given and got back, by owner.
pub type Books = BTreeMap<u32, usize>;

// ---- commands ----
/// Owned bytes as the slices commands carry.
#[derive(Default, Clone, Debug)]
pub struct Bytes(pub Vec<u8>);
impl divans::SliceWrapper<u8> for Bytes {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
pub type Cmd = divans::Command<Bytes>;
/// Something that takes commands instead of data.
pub trait CmdEnc {
    fn commands(&mut self, c: &[Cmd], at: &mut usize, output: &mut [u8], ooff: &mut usize) -> R;
    fn flush(&mut self, output: &mut [u8], ooff: &mut usize) -> R;
    fn free(self: Box<Self>);
}
impl CmdEnc for RustInternal {
    fn commands(&mut self, c: &[Cmd], at: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        self.0.encode_commands(c, at, o, oo).into()
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        self.0.flush(o, oo).into()
    }
    fn free(self: Box<Self>) {
        let (_m8, _m32, _mcdf) = self.0.free();
    }
}
/// The interpreter of commands.
pub struct Recoder(divans::DivansRecodeState<Ring>);
#[derive(Default)]
pub struct Ring(Vec<u8>);
impl divans::SliceWrapper<u8> for Ring {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
impl divans::SliceWrapperMut<u8> for Ring {
    fn slice_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl CmdEnc for Recoder {
    fn commands(&mut self, c: &[Cmd], at: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        self.0.encode_commands(c, at, o, oo).into()
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        // its Compressor::flush is for those who have nothing to flush
        divans::DivansRecodeState::flush(&mut self.0, o, oo).into()
    }
    fn free(self: Box<Self>) {}
}
pub fn cmd_enc(o: &Opts, id: u32) -> Box<dyn CmdEnc> {
    Box::new(RustInternal(InternalF::new(SimAlloc::new(id), SimAlloc::new(id + 1), SimAlloc::new(id + 2), o.rust(), ())))
}
pub fn recoder(window: u32) -> Box<dyn CmdEnc> {
    Box::new(Recoder(divans::DivansRecodeState::new(Ring(vec![0; 1 << window]))))
}
