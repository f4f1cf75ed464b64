//! Offline stand-in for dfinity/ic `icrc-ledger-client-cdk` + `icrc-ledger-client`.
use candid::utils::{ArgumentDecoder, ArgumentEncoder};
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{BlockIndex, TransferArg, TransferError};
use icrc_ledger_types::icrc2::allowance::{Allowance, AllowanceArgs};
use icrc_ledger_types::icrc2::approve::{ApproveArgs, ApproveError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};

#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
pub struct CdkRuntime;

impl CdkRuntime {
    pub async fn call<In, Out>(
        &self,
        id: Principal,
        method: &str,
        args: In,
    ) -> Result<Out, (i32, String)>
    where
        In: ArgumentEncoder + Send,
        Out: for<'a> ArgumentDecoder<'a>,
    {
        ic_cdk::api::call::call(id, method, args)
            .await
            .map_err(|(code, msg)| (code as i32, msg))
    }
}

#[derive(Clone, Debug)]
pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}

type CallResult<T> = Result<T, (i32, String)>;

impl ICRC1Client<CdkRuntime> {
    async fn one<In, Out>(&self, method: &str, args: In) -> CallResult<Out>
    where
        In: ArgumentEncoder + Send,
        (Out,): for<'a> ArgumentDecoder<'a>,
    {
        self.runtime
            .call(self.ledger_canister_id, method, args)
            .await
            .map(|(r,): (Out,)| r)
    }
    pub async fn name(&self) -> CallResult<String> {
        self.one("icrc1_name", ()).await
    }
    pub async fn symbol(&self) -> CallResult<String> {
        self.one("icrc1_symbol", ()).await
    }
    pub async fn decimals(&self) -> CallResult<u8> {
        self.one("icrc1_decimals", ()).await
    }
    pub async fn total_supply(&self) -> CallResult<Nat> {
        self.one("icrc1_total_supply", ()).await
    }
    pub async fn fee(&self) -> CallResult<Nat> {
        self.one("icrc1_fee", ()).await
    }
    pub async fn minting_account(&self) -> CallResult<Option<Account>> {
        self.one("icrc1_minting_account", ()).await
    }
    pub async fn balance_of(&self, account: Account) -> CallResult<Nat> {
        self.one("icrc1_balance_of", (account,)).await
    }
    pub async fn transfer(&self, args: TransferArg) -> CallResult<Result<BlockIndex, TransferError>> {
        self.one("icrc1_transfer", (args,)).await
    }
    pub async fn transfer_from(
        &self,
        args: TransferFromArgs,
    ) -> CallResult<Result<BlockIndex, TransferFromError>> {
        self.one("icrc2_transfer_from", (args,)).await
    }
    pub async fn approve(&self, args: ApproveArgs) -> CallResult<Result<BlockIndex, ApproveError>> {
        self.one("icrc2_approve", (args,)).await
    }
    pub async fn allowance(&self, args: AllowanceArgs) -> CallResult<Allowance> {
        self.one("icrc2_allowance", (args,)).await
    }
}
