//! Offline stand-in for dfinity/ic `icrc-ledger-types` (ICRC-1 and ICRC-2 parts).
pub mod icrc1;
pub mod icrc2;
