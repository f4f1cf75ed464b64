//! An ICRC-1/ICRC-2 ledger (simulated peer): balances, allowances, mint/burn by the minting account, block log.
use crate::types::*;
use candid::{Nat, Principal};
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub type Acc = (Principal, [u8; 32]);
pub fn acc(a: &Account) -> Acc {
    (a.owner, a.subaccount.unwrap_or([0; 32]))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Mint,
    Burn,
    Transfer,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub index: u64,
    pub kind: Kind,
    pub from: Acc,
    pub to: Acc,
    pub amount: BigUint,
    pub memo: Option<Vec<u8>>,
    pub at: u64,
}

pub struct Ledger {
    pub id: Principal,
    pub fee: BigUint,
    pub minter: Acc,
    pub balances: BTreeMap<Acc, BigUint>,
    pub allowances: BTreeMap<(Acc, Acc), BigUint>,
    pub default_allowance: BigUint,
    pub next: u64,
    pub supply: BigUint,
    pub blocks: Vec<Block>,
}

impl Ledger {
    pub fn new(id: Principal, fee: BigUint, minter: Principal, first: u64) -> Ledger {
        Ledger {
            id,
            fee,
            minter: (minter, [0; 32]),
            balances: BTreeMap::new(),
            allowances: BTreeMap::new(),
            default_allowance: BigUint::from(1u8) << 256,
            next: first,
            supply: BigUint::default(),
            blocks: vec![],
        }
    }
    pub fn balance(&self, a: &Acc) -> BigUint {
        self.balances.get(a).cloned().unwrap_or_default()
    }
    fn add(&mut self, a: &Acc, n: &BigUint) {
        *self.balances.entry(*a).or_default() += n;
    }
    fn sub(&mut self, a: &Acc, n: &BigUint) {
        let b = self.balances.entry(*a).or_default();
        *b -= n;
    }
    fn block(&mut self, kind: Kind, from: Acc, to: Acc, amount: BigUint, memo: Option<Vec<u8>>, at: u64) -> u64 {
        let index = self.next;
        self.next += 1;
        self.blocks.push(Block { index, kind, from, to, amount, memo, at });
        index
    }
    fn bad_fee(&self, given: &Option<Nat>, expected: &BigUint) -> Option<Nat> {
        match given {
            Some(f) if &f.0 != expected => Some(Nat::from(expected.clone())),
            _ => None,
        }
    }

    /// A transfer by `from`'s owner; mints when `from` is the minting account.
    pub fn transfer(&mut self, caller: Principal, a: &TransferArg, at: u64) -> Result<u64, TransferError> {
        let from: Acc = (caller, a.from_subaccount.unwrap_or([0; 32]));
        let to = acc(&a.to);
        let amount = a.amount.0.clone();
        let memo = a.memo.as_ref().map(|m| m.to_vec());
        if to == self.minter {
            if let Some(expected_fee) = self.bad_fee(&a.fee, &BigUint::default()) {
                return Err(TransferError::BadFee { expected_fee });
            }
            let bal = self.balance(&from);
            let min = self.fee.clone().min(bal.clone());
            if from == self.minter || amount < min || amount == BigUint::default() {
                return Err(TransferError::BadBurn { min_burn_amount: Nat::from(min) });
            }
            if bal < amount {
                return Err(TransferError::InsufficientFunds { balance: Nat::from(bal) });
            }
            self.sub(&from, &amount);
            self.supply -= &amount;
            return Ok(self.block(Kind::Burn, from, to, amount, memo, at));
        }
        if from == self.minter {
            if let Some(expected_fee) = self.bad_fee(&a.fee, &BigUint::default()) {
                return Err(TransferError::BadFee { expected_fee });
            }
            self.add(&to, &amount);
            self.supply += &amount;
            return Ok(self.block(Kind::Mint, from, to, amount, memo, at));
        }
        if let Some(expected_fee) = self.bad_fee(&a.fee, &self.fee) {
            return Err(TransferError::BadFee { expected_fee });
        }
        let bal = self.balance(&from);
        let fee = self.fee.clone();
        if bal < &amount + &fee {
            return Err(TransferError::InsufficientFunds { balance: Nat::from(bal) });
        }
        self.sub(&from, &(&amount + &fee));
        self.add(&to, &amount);
        self.supply -= &fee;
        Ok(self.block(Kind::Transfer, from, to, amount, memo, at))
    }

    /// A transfer by an approved spender; burns when `to` is the minting account.
    pub fn transfer_from(&mut self, caller: Principal, a: &TransferFromArgs, at: u64) -> Result<u64, TransferFromError> {
        let spender: Acc = (caller, a.spender_subaccount.unwrap_or([0; 32]));
        let from = acc(&a.from);
        let to = acc(&a.to);
        let amount = a.amount.0.clone();
        let memo = a.memo.as_ref().map(|m| m.to_vec());
        let burn = to == self.minter;
        let fee = if burn || from == self.minter { BigUint::default() } else { self.fee.clone() };
        if let Some(expected_fee) = self.bad_fee(&a.fee, &fee) {
            return Err(TransferFromError::BadFee { expected_fee });
        }
        let need = &amount + &fee;
        let bal = self.balance(&from);
        if burn {
            let min = self.fee.clone().min(bal.clone());
            if amount < min || amount == BigUint::default() {
                return Err(TransferFromError::BadBurn { min_burn_amount: Nat::from(min) });
            }
        }
        if spender != from {
            let al = self.allowance(&from, &spender);
            if al < need {
                return Err(TransferFromError::InsufficientAllowance { allowance: Nat::from(al) });
            }
        }
        if from == self.minter || bal < need {
            return Err(TransferFromError::InsufficientFunds { balance: Nat::from(bal) });
        }
        if spender != from {
            let al = self.allowance(&from, &spender);
            self.allowances.insert((from, spender), al - &need);
        }
        self.sub(&from, &need);
        if burn {
            self.supply -= &amount;
            Ok(self.block(Kind::Burn, from, to, amount, memo, at))
        } else {
            self.add(&to, &amount);
            self.supply -= &fee;
            Ok(self.block(Kind::Transfer, from, to, amount, memo, at))
        }
    }

    /// Users approve the minter's default account up front; nobody else has approved anything.
    pub fn allowance(&self, from: &Acc, spender: &Acc) -> BigUint {
        match self.allowances.get(&(*from, *spender)) {
            Some(a) => a.clone(),
            None if *spender == self.minter && from.0 != self.minter.0 => self.default_allowance.clone(),
            None => BigUint::default(),
        }
    }
}
