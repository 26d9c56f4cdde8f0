//! Model of ripemd: each hash is an uninterpreted function of the message.
pub use digest::{self, Digest};
use digest::{consts, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

macro_rules! hash {
    ($t:ident, $name:expr, $out:ident, $blk:ident) => {
        #[derive(Clone, Default)]
        pub struct $t { buf: Vec<u8> }
        impl Update for $t { fn update(&mut self, d: &[u8]) { self.buf.extend_from_slice(d) } }
        impl OutputSizeUser for $t { type OutputSize = consts::$out; }
        impl BlockSizeUser for $t { type BlockSize = consts::$blk; }
        impl HashMarker for $t {}
        impl Reset for $t { fn reset(&mut self) { self.buf.clear() } }
        impl FixedOutput for $t { fn finalize_into(self, out: &mut Output<Self>) { sx::uf($name, &self.buf, out.as_mut_slice()) } }
        impl FixedOutputReset for $t { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { sx::uf($name, &self.buf, out.as_mut_slice()); self.buf.clear() } }
        impl core::fmt::Debug for $t { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(concat!(stringify!($t), " { ... }")) } }
        impl std::io::Write for $t {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) }
            fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
        }
    };
}
hash!(Ripemd128, "ripemd128", U16, U64);
hash!(Ripemd160, "ripemd160", U20, U64);
hash!(Ripemd256, "ripemd256", U32, U64);
hash!(Ripemd320, "ripemd320", U40, U64);
