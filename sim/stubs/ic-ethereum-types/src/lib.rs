//! Offline stand-in for dfinity/ic `ic-ethereum-types`: declared by the minter, used nowhere in it.
