//! Offline stand-in for dfinity/ic `ic-crypto-secp256k1`, over the same k256 crate.
use k256::ecdsa::{self, signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
use k256::elliptic_curve::sec1::ToEncodedPoint;

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum RecoveryError {
    SignatureParseError,
    WrongParameters,
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct RecoveryId(ecdsa::RecoveryId);

impl RecoveryId {
    pub fn is_x_reduced(&self) -> bool {
        self.0.is_x_reduced()
    }
    pub fn is_y_odd(&self) -> bool {
        self.0.is_y_odd()
    }
    pub fn to_byte(&self) -> u8 {
        self.0.to_byte()
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PublicKey {
    key: VerifyingKey,
}

impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        VerifyingKey::from_sec1_bytes(bytes)
            .map(|key| Self { key })
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        self.key
            .as_affine()
            .to_encoded_point(compressed)
            .as_bytes()
            .to_vec()
    }
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        let Ok(sig) = Signature::try_from(signature) else {
            return false;
        };
        let sig = sig.normalize_s().unwrap_or(sig);
        self.key.verify_prehash(digest, &sig).is_ok()
    }
    pub fn try_recovery_from_digest(
        &self,
        digest: &[u8],
        signature: &[u8],
    ) -> Result<RecoveryId, RecoveryError> {
        let sig = Signature::try_from(signature).map_err(|_| RecoveryError::SignatureParseError)?;
        ecdsa::RecoveryId::trial_recovery_from_prehash(&self.key, digest, &sig)
            .map(RecoveryId)
            .map_err(|_| RecoveryError::WrongParameters)
    }
}
