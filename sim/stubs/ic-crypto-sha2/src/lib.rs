//! Offline stand-in for dfinity/ic `ic-crypto-sha2`.
use sha2::Digest;

#[derive(Clone, Default)]
pub struct Sha256(sha2::Sha256);

impl Sha256 {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn hash(data: &[u8]) -> [u8; 32] {
        sha2::Sha256::digest(data).into()
    }
    pub fn write(&mut self, data: &[u8]) {
        self.0.update(data)
    }
    pub fn finish(self) -> [u8; 32] {
        self.0.finalize().into()
    }
}
