//! Model of hmac: an uninterpreted function of (hash, key, message).
pub use digest::{self, Mac};
use digest::{core_api::BlockSizeUser, crypto_common::{InvalidLength, Key, KeyInit, KeySizeUser}, FixedOutput, FixedOutputReset, MacMarker, Output, OutputSizeUser, Reset, Update};
use core::marker::PhantomData;

pub struct Hmac<D> { key: Vec<u8>, buf: Vec<u8>, d: PhantomData<fn() -> D> }
pub type SimpleHmac<D> = Hmac<D>;
impl<D> Clone for Hmac<D> { fn clone(&self) -> Self { Hmac { key: self.key.clone(), buf: self.buf.clone(), d: PhantomData } } }
impl<D> core::fmt::Debug for Hmac<D> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Hmac { .. }") } }

/// the last segment of a type's name, in lower case
pub fn hash_name<D>() -> String { core::any::type_name::<D>().rsplit("::").next().unwrap_or("").trim_end_matches('>').to_ascii_lowercase() }
impl<D> Hmac<D> {
    fn run(&self, out: &mut [u8]) {
        let mut name = String::from("hmac-");
        name.push_str(&hash_name::<D>());
        let mut m = Vec::with_capacity(4 + self.key.len() + self.buf.len());
        m.extend_from_slice(&(self.key.len() as u32).to_le_bytes());
        m.extend_from_slice(&self.key);
        m.extend_from_slice(&self.buf);
        sx::uf(&name, &m, out)
    }
}
impl<D: OutputSizeUser> OutputSizeUser for Hmac<D> { type OutputSize = D::OutputSize; }
impl<D: BlockSizeUser> BlockSizeUser for Hmac<D> { type BlockSize = D::BlockSize; }
impl<D: BlockSizeUser> KeySizeUser for Hmac<D> { type KeySize = D::BlockSize; }
impl<D: BlockSizeUser> KeyInit for Hmac<D> {
    fn new(key: &Key<Self>) -> Self { Hmac { key: key.to_vec(), buf: vec![], d: PhantomData } }
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> { Ok(Hmac { key: key.to_vec(), buf: vec![], d: PhantomData }) }
}
impl<D> MacMarker for Hmac<D> {}
impl<D> Update for Hmac<D> { fn update(&mut self, d: &[u8]) { self.buf.extend_from_slice(d) } }
impl<D> Reset for Hmac<D> { fn reset(&mut self) { self.buf.clear() } }
impl<D: OutputSizeUser> FixedOutput for Hmac<D> { fn finalize_into(self, out: &mut Output<Self>) { self.run(out.as_mut_slice()) } }
impl<D: OutputSizeUser> FixedOutputReset for Hmac<D> { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { self.run(out.as_mut_slice()); self.buf.clear() } }
