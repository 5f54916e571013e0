//! divans built from the same sources with other features, side by side with
//! the usual build: `table` (table division, nothing inlined, no unsafe code), `plain`
//! (no standard library, frequencies that are not cached, no unsafe code) and
//! `blend` (probabilities of another kind: its format is its own).
use crate::alloc::SimAlloc;
use crate::entry::{CmdEnc, Cmd, Dec, Enc, R};
use crate::gen::Opts;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Build {
    Table,
    Plain,
    Blend,
}
macro_rules! build {
    ($name:ident, $krate:ident) => {
        mod $name {
            use super::*;
            use $krate::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed, StrideSelection};
            use $krate::{Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansDecompressorFactory, DivansOutputResult, DivansResult, StaticCommand};
            use crate::entry::{brotli_alloc, Brotli};
            type HybridF = $krate::BrotliDivansHybridCompressorFactory<SimAlloc<u8>, SimAlloc<DefaultCDF16>, Brotli>;
            type Hybrid = <HybridF as DivansCompressorFactory<SimAlloc<u8>, SimAlloc<u32>, SimAlloc<DefaultCDF16>>>::ConstructedCompressor;
            type InternalF = $krate::DivansCompressorFactoryStruct<SimAlloc<u8>, SimAlloc<DefaultCDF16>>;
            type Internal = <InternalF as DivansCompressorFactory<SimAlloc<u8>, SimAlloc<u32>, SimAlloc<DefaultCDF16>>>::ConstructedCompressor;
            type DecF = $krate::DivansDecompressorFactoryStruct<SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>;
            type Decoder = $krate::DivansDecompressor<
                <DecF as DivansDecompressorFactory<SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>>::DefaultDecoder,
                SimAlloc<u8>, SimAlloc<DefaultCDF16>, SimAlloc<StaticCommand>>;

            fn said(r: DivansResult) -> R {
                match r {
                    DivansResult::Success => R::Success,
                    DivansResult::NeedsMoreInput => R::NeedIn,
                    DivansResult::NeedsMoreOutput => R::NeedOut,
                    DivansResult::Failure(e) => R::Fail(format!("{:?}", e)),
                }
            }
            fn said_out(r: DivansOutputResult) -> R {
                match r {
                    DivansOutputResult::Success => R::Success,
                    DivansOutputResult::NeedsMoreOutput => R::NeedOut,
                    DivansOutputResult::Failure(e) => R::Fail(format!("{:?}", e)),
                }
            }
            struct H(Hybrid);
            impl Enc for H {
                fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
                    said(self.0.encode(i, io, o, oo))
                }
                fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
                    said_out(self.0.flush(o, oo))
                }
                fn free(self: Box<Self>) {
                    let _ = self.0.free();
                }
            }
            struct I(Internal);
            impl Enc for I {
                fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
                    said(self.0.encode(i, io, o, oo))
                }
                fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
                    said_out(self.0.flush(o, oo))
                }
                fn free(self: Box<Self>) {
                    let _ = self.0.free();
                }
            }
            impl CmdEnc for I {
                fn commands(&mut self, c: &[Cmd], at: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
                    said_out(self.0.encode_commands(c, at, o, oo))
                }
                fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
                    said_out(self.0.flush(o, oo))
                }
                fn free(self: Box<Self>) {
                    let _ = self.0.free();
                }
            }
            struct D(Decoder);
            impl Dec for D {
                fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
                    said(self.0.decode(i, io, o, oo))
                }
                fn free(self: Box<Self>) {
                    let _ = self.0.free();
                }
            }
            fn options(o: &Opts) -> DivansCompressorOptions {
                crate::gen::compressor_options!(o)
            }
            fn internal(o: &Opts, id: u32) -> I {
                I(InternalF::new(SimAlloc::new(id), SimAlloc::new(id + 1), SimAlloc::new(id + 2), options(o), ()))
            }
            pub fn enc(o: &Opts, id: u32) -> Box<dyn Enc> {
                if o.internal {
                    Box::new(internal(o, id))
                } else {
                    Box::new(H(HybridF::new(SimAlloc::new(id), SimAlloc::<u32>::new(id + 1), SimAlloc::new(id + 2), options(o), brotli_alloc(id))))
                }
            }
            pub fn cmd_enc(o: &Opts, id: u32) -> Box<dyn CmdEnc> {
                Box::new(internal(o, id))
            }
            pub fn dec(skip_crc: bool, multi: bool, id: u32) -> Box<dyn Dec> {
                Box::new(D(DecF::new(SimAlloc::new(id), SimAlloc::new(id + 1), SimAlloc::new(id + 2), skip_crc, multi)))
            }
        }
    };
}
build!(table, divans_table);
build!(plain, divans_plain);
build!(blend, divans_blend);

impl Build {
    pub fn threads(self) -> bool {
        self != Build::Plain
    }
    pub fn enc(self, o: &Opts, id: u32) -> Box<dyn Enc> {
        match self {
            Build::Table => table::enc(o, id),
            Build::Plain => plain::enc(o, id),
            Build::Blend => blend::enc(o, id),
        }
    }
    pub fn cmd_enc(self, o: &Opts, id: u32) -> Box<dyn CmdEnc> {
        match self {
            Build::Table => table::cmd_enc(o, id),
            Build::Plain => plain::cmd_enc(o, id),
            Build::Blend => blend::cmd_enc(o, id),
        }
    }
    pub fn dec(self, skip_crc: bool, multi: bool, id: u32) -> Box<dyn Dec> {
        match self {
            Build::Table => table::dec(skip_crc, multi, id),
            Build::Plain => plain::dec(skip_crc, multi, id),
            Build::Blend => blend::dec(skip_crc, multi, id),
        }
    }
}
