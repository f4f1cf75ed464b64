pub mod account {
    use candid::{CandidType, Principal};
    use serde::{Deserialize, Serialize};
    use std::{cmp, fmt, hash};

    pub type Subaccount = [u8; 32];
    pub const DEFAULT_SUBACCOUNT: &Subaccount = &[0; 32];

    #[derive(Serialize, CandidType, Deserialize, Clone, Debug, Copy)]
    pub struct Account {
        pub owner: Principal,
        pub subaccount: Option<Subaccount>,
    }

    impl Account {
        pub fn effective_subaccount(&self) -> &Subaccount {
            self.subaccount.as_ref().unwrap_or(DEFAULT_SUBACCOUNT)
        }
    }
    impl PartialEq for Account {
        fn eq(&self, o: &Self) -> bool {
            self.owner == o.owner && self.effective_subaccount() == o.effective_subaccount()
        }
    }
    impl Eq for Account {}
    impl cmp::PartialOrd for Account {
        fn partial_cmp(&self, o: &Self) -> Option<cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl cmp::Ord for Account {
        fn cmp(&self, o: &Self) -> cmp::Ordering {
            self.owner
                .cmp(&o.owner)
                .then_with(|| self.effective_subaccount().cmp(o.effective_subaccount()))
        }
    }
    impl hash::Hash for Account {
        fn hash<H: hash::Hasher>(&self, s: &mut H) {
            self.owner.hash(s);
            self.effective_subaccount().hash(s);
        }
    }
    impl fmt::Display for Account {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.subaccount {
                None => write!(f, "{}", self.owner),
                Some(s) if s == &[0; 32] => write!(f, "{}", self.owner),
                Some(s) => {
                    write!(f, "{}.", self.owner)?;
                    for b in s.iter() {
                        write!(f, "{b:02x}")?;
                    }
                    Ok(())
                }
            }
        }
    }
    impl From<Principal> for Account {
        fn from(owner: Principal) -> Self {
            Self { owner, subaccount: None }
        }
    }
}

pub mod transfer {
    use super::account::{Account, Subaccount};
    use candid::{CandidType, Nat};
    use serde::{Deserialize, Serialize};
    use serde_bytes::ByteBuf;
    use std::fmt;

    pub type NumTokens = Nat;
    pub type BlockIndex = Nat;

    #[derive(Serialize, CandidType, Deserialize, Clone, Hash, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
    #[serde(transparent)]
    pub struct Memo(pub ByteBuf);

    impl From<u64> for Memo {
        fn from(num: u64) -> Self {
            Self(ByteBuf::from(num.to_be_bytes().to_vec()))
        }
    }
    impl From<ByteBuf> for Memo {
        fn from(b: ByteBuf) -> Self {
            Self(b)
        }
    }
    impl From<Vec<u8>> for Memo {
        fn from(v: Vec<u8>) -> Self {
            Self(ByteBuf::from(v))
        }
    }
    impl From<Memo> for ByteBuf {
        fn from(m: Memo) -> Self {
            m.0
        }
    }

    #[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct TransferArg {
        #[serde(default)]
        pub from_subaccount: Option<Subaccount>,
        pub to: Account,
        #[serde(default)]
        pub fee: Option<NumTokens>,
        #[serde(default)]
        pub created_at_time: Option<u64>,
        #[serde(default)]
        pub memo: Option<Memo>,
        pub amount: NumTokens,
    }

    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum TransferError {
        BadFee { expected_fee: NumTokens },
        BadBurn { min_burn_amount: NumTokens },
        InsufficientFunds { balance: NumTokens },
        TooOld,
        CreatedInFuture { ledger_time: u64 },
        TemporarilyUnavailable,
        Duplicate { duplicate_of: BlockIndex },
        GenericError { error_code: Nat, message: String },
    }

    impl fmt::Display for TransferError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Self::BadFee { expected_fee } => write!(f, "transfer fee should be {}", expected_fee),
                Self::BadBurn { min_burn_amount } => write!(
                    f,
                    "the minimum number of tokens to be burned is {}",
                    min_burn_amount
                ),
                Self::InsufficientFunds { balance } => write!(
                    f,
                    "the debit account doesn't have enough funds to complete the transaction, current balance: {}",
                    balance
                ),
                Self::TooOld => write!(f, "transaction's created_at_time is too far in the past"),
                Self::CreatedInFuture { ledger_time } => write!(
                    f,
                    "transaction's created_at_time is in future, current ledger time is {}",
                    ledger_time
                ),
                Self::TemporarilyUnavailable => write!(f, "the ledger is temporarily unavailable"),
                Self::Duplicate { duplicate_of } => write!(
                    f,
                    "transaction is a duplicate of another transaction in block {}",
                    duplicate_of
                ),
                Self::GenericError { error_code, message } => {
                    write!(f, "{} {}", error_code, message)
                }
            }
        }
    }
}
