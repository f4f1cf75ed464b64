pub mod transfer_from {
    use crate::icrc1::account::{Account, Subaccount};
    use crate::icrc1::transfer::{BlockIndex, Memo, NumTokens};
    use candid::{CandidType, Nat};
    use serde::{Deserialize, Serialize};

    #[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct TransferFromArgs {
        #[serde(default)]
        pub spender_subaccount: Option<Subaccount>,
        pub from: Account,
        pub to: Account,
        pub amount: NumTokens,
        #[serde(default)]
        pub fee: Option<NumTokens>,
        #[serde(default)]
        pub memo: Option<Memo>,
        #[serde(default)]
        pub created_at_time: Option<u64>,
    }

    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub enum TransferFromError {
        BadFee { expected_fee: Nat },
        BadBurn { min_burn_amount: Nat },
        InsufficientFunds { balance: Nat },
        InsufficientAllowance { allowance: Nat },
        TooOld,
        CreatedInFuture { ledger_time: u64 },
        Duplicate { duplicate_of: BlockIndex },
        TemporarilyUnavailable,
        GenericError { error_code: Nat, message: String },
    }
}

pub mod approve {
    use crate::icrc1::account::{Account, Subaccount};
    use crate::icrc1::transfer::{BlockIndex, Memo};
    use candid::{CandidType, Nat};
    use serde::{Deserialize, Serialize};

    #[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct ApproveArgs {
        #[serde(default)]
        pub from_subaccount: Option<Subaccount>,
        pub spender: Account,
        pub amount: Nat,
        #[serde(default)]
        pub expected_allowance: Option<Nat>,
        #[serde(default)]
        pub expires_at: Option<u64>,
        #[serde(default)]
        pub fee: Option<Nat>,
        #[serde(default)]
        pub memo: Option<Memo>,
        #[serde(default)]
        pub created_at_time: Option<u64>,
    }

    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub enum ApproveError {
        BadFee { expected_fee: Nat },
        InsufficientFunds { balance: Nat },
        AllowanceChanged { current_allowance: Nat },
        Expired { ledger_time: u64 },
        TooOld,
        CreatedInFuture { ledger_time: u64 },
        Duplicate { duplicate_of: BlockIndex },
        TemporarilyUnavailable,
        GenericError { error_code: Nat, message: String },
    }
}

pub mod allowance {
    use crate::icrc1::account::Account;
    use candid::{CandidType, Nat};
    use serde::{Deserialize, Serialize};

    #[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct AllowanceArgs {
        pub account: Account,
        pub spender: Account,
    }

    #[derive(CandidType, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct Allowance {
        pub allowance: Nat,
        #[serde(default)]
        pub expires_at: Option<u64>,
    }
}
