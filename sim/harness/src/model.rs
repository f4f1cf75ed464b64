//! The reference model: what the minter's log may say, given what the simulated peers really did.
use crate::chain::*;
use crate::ledger::*;
use crate::rpc::*;
use crate::types::*;
use crate::util::*;
use crate::world::*;
use candid::{Encode, Nat, Principal};
use num_bigint::BigUint;
use serde_bytes::ByteBuf;

// ---- memos
#[derive(Debug, Clone, PartialEq)]
pub enum C {
    U(BigUint),
    B(Vec<u8>),
    T(String),
    A(Vec<C>),
}
fn item(b: &[u8]) -> Option<(C, &[u8])> {
    let h = *b.first()?;
    let (major, low) = (h >> 5, h & 31);
    let mut rest = &b[1..];
    let n: u64 = match low {
        0..=23 => low as u64,
        24..=27 => {
            let k = 1usize << (low - 24);
            let v = rest.get(..k)?.iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            rest = &rest[k..];
            v
        }
        _ => return None,
    };
    match major {
        0 => Some((C::U(BigUint::from(n)), rest)),
        2 => Some((C::B(rest.get(..n as usize)?.to_vec()), &rest[n as usize..])),
        3 => Some((C::T(String::from_utf8(rest.get(..n as usize)?.to_vec()).ok()?), &rest[n as usize..])),
        4 => {
            let mut v = vec![];
            for _ in 0..n.min(64) {
                let (x, r) = item(rest)?;
                v.push(x);
                rest = r;
            }
            Some((C::A(v), rest))
        }
        6 if n == 2 => match item(rest)? {
            (C::B(x), r) => Some((C::U(BigUint::from_bytes_be(&x)), r)),
            _ => None,
        },
        _ => None,
    }
}
pub fn cbor(b: &[u8]) -> Option<C> {
    let (v, r) = item(b)?;
    r.is_empty().then_some(v)
}
/// A memo as (variant, fields).
pub fn memo(m: &Option<ByteBuf>) -> Option<(u64, Vec<C>)> {
    match cbor(m.as_ref()?)? {
        C::A(v) if v.len() == 2 => match (&v[0], &v[1]) {
            (C::U(k), C::A(f)) => Some((nat64(&nat(k)), f.clone())),
            _ => None,
        },
        _ => None,
    }
}
pub fn cu(c: &C) -> Option<&BigUint> {
    if let C::U(x) = c {
        Some(x)
    } else {
        None
    }
}
pub fn h32(s: &str) -> [u8; 32] {
    unhex(s).and_then(|b| b.as_slice().try_into().ok()).unwrap_or([0; 32])
}
fn zero() -> BigUint {
    BigUint::default()
}
fn sub0(s: &Option<[u8; 32]>) -> [u8; 32] {
    s.unwrap_or([0; 32])
}

impl World<'_> {
    pub fn dep(&self, k: &Key) -> Option<Dep> {
        self.chain.deps.iter().find(|d| d.canonical && d.key() == *k).cloned()
    }
    /// Registered token with this contract.
    pub fn token_at(&self, a: &[u8; 20]) -> Option<usize> {
        self.registered.iter().cloned().find(|i| &self.tokens[*i].addr == a)
    }
    pub fn is_dust(&self, d: &Dep) -> bool {
        d.token == [0; 20] && d.value < self.conf.dep_fee
    }

    // ---- ledger effects
    pub fn on_ledger_block(&mut self, oi: usize) {
        let op = self.ops[oi].clone();
        let Some(LRes::Ok(idx)) = op.res else { return };
        let a = match &op.req {
            LReq::Transfer(a) => a.clone(),
            LReq::From(_) => return,
        };
        let to = acc(&a.to);
        let amount = a.amount.0.clone();
        let desc = format!("mint of {} on ledger {} to {:?} in block {}", amount, op.li, to.0.to_text(), idx);
        if sub0(&a.from_subaccount) != [0; 32] {
            self.fail(&["P10", "P01"], format!("{} came out of a subaccount of the minter", desc));
            return;
        }
        self.hit("P10");
        if a.memo.is_none() {
            // The deposit fee.
            self.hit("P01");
            self.fee_mints += 1;
            if op.li != 0 || to != (self.me, FEES_SUB) || amount != self.conf.dep_fee || amount == zero() {
                self.fail(&["P01", "P10", "P20"], format!("unexplained {} without memo", desc));
            } else if self.fee_mints > self.native_mints {
                self.fail(&["P01", "P10"], "more deposit fees were minted than native deposits".into());
            }
            return;
        }
        match memo(&a.memo) {
            Some((0, f)) if f.len() == 3 => self.deposit_mint(&op, idx, &f, to, amount, desc),
            Some((1, f)) if f.len() == 2 => self.reimburse_mint(&op, idx, &f, to, amount, desc),
            Some((2, f)) if f.len() == 1 => {
                self.hit("P05");
                let wid = cu(&f[0]).map_or(u64::MAX, |x| nat64(&nat(x)));
                let Some(x) = self.failed.get_mut(&wid) else {
                    self.fail(&["P05", "P10"], format!("{}: reimburses withdrawal {} which never failed", desc, wid));
                    return;
                };
                let bad = op.li != 0 || x.amount != amount || to != (x.to, [0; 32]);
                let twice = x.mint.is_some();
                let want = format!("{} to {}", x.amount, x.to.to_text());
                x.mint = Some(idx);
                if twice {
                    self.fail(&["P05", "P10"], format!("{}: withdrawal {} was reimbursed twice", desc, wid));
                } else if bad {
                    self.fail(&["P05", "P10"], format!("{}: withdrawal {} should be reimbursed {}", desc, wid, want));
                }
            }
            m => self.fail(&["P01", "P10", "P21"], format!("{}: unintelligible memo {:?}", desc, m)),
        }
    }

    fn deposit_mint(&mut self, op: &LOp, idx: u64, f: &[C], to: Acc, amount: BigUint, desc: String) {
        self.hit("P01");
        let (from, tx, li) = match (&f[0], &f[1], &f[2]) {
            (C::B(a), C::B(h), C::U(n)) if a.len() == 20 && h.len() == 32 => (a.clone(), <[u8; 32]>::try_from(h.as_slice()).unwrap(), nat64(&nat(n))),
            _ => return self.fail(&["P01", "P21"], format!("{}: malformed memo", desc)),
        };
        let key = (tx, li);
        let Some(d) = self.dep(&key) else {
            if self.chain.orphans.iter().any(|o| o.key() == key) {
                self.fail(&["P18", "P01", "P10"], format!("{}: for a deposit that a reorganisation removed", desc));
            } else if self.byz > 0 {
                self.fail(&["P12", "P01", "P10"], format!("{}: for a deposit that never happened (one provider lied)", desc));
            } else {
                self.fail(&["P01", "P10"], format!("{}: for a deposit that never happened", desc));
            }
            return;
        };
        if !d.valid {
            self.fail(&["P03", "P01"], format!("{}: for an invalid deposit {:?}", desc, d.form));
            return;
        }
        let want_li = if d.token == [0; 20] { Some(0) } else { self.token_at(&d.token).map(|i| self.tokens[i].li) };
        let want = if d.token == [0; 20] {
            if d.value < self.conf.dep_fee {
                self.fail(&["P03", "P01"], format!("{}: the deposit does not cover the deposit fee", desc));
                return;
            }
            &d.value - &self.conf.dep_fee
        } else {
            d.value.clone()
        };
        let who = (Principal::from_slice(&d.principal), d.sub);
        let mut props = vec!["P01"];
        if self.byz > 0 {
            props.push("P12");
        }
        if want_li != Some(op.li) {
            props.push("P13");
            self.fail(&props, format!("{}: wrong ledger for token {}", desc, hex0x(&d.token)));
        } else if to != who {
            self.fail(&props, format!("{}: deposited for {} {}", desc, who.0.to_text(), hex::encode(who.1)));
        } else if amount != want {
            props.extend(["P10", "P20"]);
            self.fail(&props, format!("{}: should be {}", desc, want));
        } else if from != d.from {
            self.fail(&["P21"], format!("{}: the memo names another sender", desc));
        }
        let st = self.deps.entry(key).or_default();
        st.minted.push((op.li, idx));
        let n = st.minted.len();
        if n > 1 {
            self.fail(&["P01", "P10"], format!("{}: deposit {} log {} was minted {} times", desc, hex0x(&tx), li, n));
        }
        self.stats.borrow_mut().mints += 1;
        if d.token == [0; 20] {
            self.native_mints += 1;
            if self.conf.dep_fee > zero() {
                self.fee_due += 1;
            }
        }
    }

    fn reimburse_mint(&mut self, op: &LOp, idx: u64, f: &[C], to: Acc, amount: BigUint, desc: String) {
        self.hit("P05");
        let (wid, hash) = match (&f[0], &f[1]) {
            (C::U(n), C::B(h)) if h.len() == 32 => (nat64(&nat(n)), <[u8; 32]>::try_from(h.as_slice()).unwrap()),
            _ => return self.fail(&["P05", "P21"], format!("{}: malformed memo", desc)),
        };
        let li = op.li;
        let toks: Vec<usize> = self.tokens.iter().map(|t| t.li).collect();
        let found = self.wds.values_mut().find(|w| match w.token {
            None => li == 0 && w.id == wid,
            Some(t) => toks[t] == li && w.burn == wid,
        });
        let Some(w) = found else {
            return self.fail(&["P05", "P10"], format!("{}: reimburses unknown withdrawal {}", desc, wid));
        };
        let err = match (&w.fin, &w.fin_tx) {
            (Some(r), Some(tx)) if r.status == TransactionStatus::Failure => {
                let want = if w.token.is_none() { tx.value.clone() } else { w.amount.clone() };
                if hash != tx.hash {
                    Some("names another transaction".to_string())
                } else if amount != want {
                    Some(format!("should be {}", want))
                } else if to != (w.from, [0; 32]) {
                    Some(format!("should go to {}", w.from.to_text()))
                } else if w.reimb_mint.is_some() {
                    Some("was already reimbursed".into())
                } else {
                    None
                }
            }
            (Some(_), _) => Some("was paid on chain".into()),
            _ => Some("is not finalised".into()),
        };
        w.reimb_mint = Some((li, idx));
        let id = w.id;
        if let Some(e) = err {
            self.fail(&["P05", "P10"], format!("{}: reimbursement of withdrawal {} {}", desc, id, e));
        }
        self.stats.borrow_mut().reimbursed += 1;
    }

    // ---- the event log
    pub fn get_events(&mut self, start: u64, length: u64) -> Option<GetEventsResult> {
        match self.query::<GetEventsResult>("get_events", Encode!(&GetEventsArg { start, length }).unwrap()) {
            Ok(r) => Some(r),
            Err(e) => {
                self.fail(&["P21", "P09"], format!("get_events({}, {}) failed: {}", start, length, e));
                None
            }
        }
    }

    pub fn sync_events(&mut self) {
        if !self.rep.exec().dirty {
            return;
        }
        loop {
            let start = self.events.len() as u64;
            let Some(r) = self.get_events(start, 100) else { return };
            if r.total_event_count < start {
                self.fail(&["P21", "P09"], format!("the log shrank from {} to {} entries", start, r.total_event_count));
                return;
            }
            let want = (r.total_event_count - start).min(100);
            if r.events.len() as u64 != want {
                self.fail(&["P21", "P09"], format!("get_events({}, 100) returned {} of {} entries", start, r.events.len(), want));
                return;
            }
            if r.events.is_empty() {
                break;
            }
            for e in r.events {
                let i = self.events.len();
                self.events.push(e.clone());
                self.stats.borrow_mut().events += 1;
                self.hit("P21");
                if e.timestamp != self.now {
                    self.fail(&["P21"], format!("log entry {} is dated {} instead of {}", i, e.timestamp, self.now));
                }
                if self.verbose {
                    eprintln!("             event {} {:?}", i, e.payload);
                }
                let name = format!("{:?}", e.payload);
                let name = name.split([' ', '(', '{']).next().unwrap_or("").to_string();
                self.prev_event(&name);
                self.on_event(i, e.payload);
            }
        }
    }

    fn on_event(&mut self, i: usize, p: EventPayload) {
        use EventPayload as E;
        match p {
            E::Init(a) => {
                self.hit("P20");
                let mut b = self.init_arg();
                b.helper_contract_address = a.helper_contract_address.clone().filter(|x| parse_addr(x) == Some(self.conf.helper)).or(b.helper_contract_address);
                if i != 0 || self.cur.label != "init" || a != b {
                    self.fail(&["P21", "P20"], format!("the log starts with {:?} instead of {:?}", a, b));
                }
            }
            E::Upgrade(a) => {
                if self.cur.label != "upgrade" || self.up_arg.as_ref() != Some(&a) {
                    self.fail(&["P21", "P20"], format!("logged upgrade {:?} instead of {:?}", a, self.up_arg));
                }
            }
            E::SyncedToBlock { block_number } => {
                self.hit("P19");
                if self.cur.label != "upgrade" || nat64(&block_number) != self.last_scraped {
                    self.fail(&["P19", "P09", "P21"], format!("logged synced block {} while {} was scraped", block_number, self.last_scraped));
                }
            }
            E::AcceptedDeposit { transaction_hash, block_number, log_index, from_address, value, principal, subaccount } => {
                self.accept(transaction_hash, block_number, log_index, from_address, value, principal, subaccount, None)
            }
            E::AcceptedErc20Deposit { transaction_hash, block_number, log_index, from_address, value, principal, erc20_contract_address, subaccount } => {
                self.accept(transaction_hash, block_number, log_index, from_address, value, principal, subaccount, Some(erc20_contract_address))
            }
            E::InvalidDeposit { event_source, reason } => {
                self.hit("P03");
                let k = (h32(&event_source.transaction_hash), nat64(&event_source.log_index));
                match self.dep(&k) {
                    Some(d) if !d.valid => self.deps.entry(k).or_default().invalid = true,
                    Some(_) => {
                        self.deps.entry(k).or_default().invalid = true;
                        self.fail(&["P02", "P03", "P21"], format!("a valid deposit {:?} was rejected: {}", k, reason))
                    }
                    None => self.fail(&["P12", "P21"], format!("an invalid deposit {:?} that never happened was logged", k)),
                }
            }
            E::QuarantinedDeposit { event_source } => {
                let k = (h32(&event_source.transaction_hash), nat64(&event_source.log_index));
                let d = self.dep(&k);
                let dust = d.as_ref().map_or(false, |d| self.is_dust(d));
                let st = self.deps.entry(k).or_default();
                let unknown = !st.accepted;
                let recorded = st.recorded || st.quarantined;
                st.quarantined = true;
                if unknown || recorded {
                    self.fail(&["P02", "P21"], format!("deposit {:?} was quarantined (accepted: {}, done: {})", k, !unknown, recorded));
                } else if !dust && !(self.cur.trapped.is_some() && self.cur.injected) {
                    self.fail(&["P02"], format!("deposit {:?} was quarantined without need ({:?})", k, self.cur.trapped));
                }
            }
            E::MintedNative { event_source, mint_block_index } => self.minted(event_source, mint_block_index, None),
            E::MintedErc20 { event_source, mint_block_index, erc20_token_symbol, erc20_contract_address } => {
                self.minted(event_source, mint_block_index, Some((erc20_token_symbol, erc20_contract_address)))
            }
            E::SkippedBlock { block_number } => {
                self.hit("P19");
                let n = nat64(&block_number);
                match self.cur.facts {
                    Facts::Logs { from, to, agreed: None, too_large, .. } if from == to && from == n && too_large > 0 => {
                        if too_large < 2 {
                            self.fail(&["P12", "P02"], format!("block {} was skipped on the word of one provider", n));
                        }
                    }
                    _ => self.fail(&["P19", "P02", "P21"], format!("block {} was skipped although its logs could be had", n)),
                }
            }
            E::AddedErc20Token { chain_id, address, erc20_token_symbol, erc20_ledger_id } => {
                self.hit("P13");
                let call = self.cur.user.map(|u| self.ucalls[u as usize].clone());
                let ok = match &call {
                    Some(UCall { kind: UK::AddToken { arg, expect: true }, .. }) => {
                        arg.chain_id == chain_id && parse_addr(&arg.address) == parse_addr(&address) && arg.erc20_token_symbol == erc20_token_symbol && arg.erc20_ledger_id == erc20_ledger_id
                    }
                    _ => false,
                };
                if !ok {
                    self.fail(&["P13", "P21"], format!("token {} {} {} was registered by {:?}", erc20_token_symbol, address, erc20_ledger_id, call.map(|c| c.kind)));
                    return;
                }
                if let Some(k) = self.tokens.iter().position(|t| t.ledger == erc20_ledger_id) {
                    self.tokens[k].registered = Some(self.now);
                    self.registered.push(k);
                }
            }
            E::AcceptedNativeWithdrawalRequest { withdrawal_amount, destination, ledger_burn_index, from, from_subaccount, created_at } => {
                self.hit("P08");
                let id = nat64(&ledger_burn_index);
                let Some((u, call)) = self.cur.user.map(|u| (u, self.ucalls[u as usize].clone())) else {
                    return self.fail(&["P08", "P04"], format!("withdrawal {} came from nowhere", id));
                };
                let burn = self.ok_burn(&call, 0, &from);
                let (amount, to) = match &call.kind {
                    UK::Native { amount, to } => (amount.clone(), parse_addr(to)),
                    _ => return self.fail(&["P08", "P04"], format!("withdrawal {} was recorded for another call", id)),
                };
                let want = if amount >= self.conf.wd_fee { amount - &self.conf.wd_fee } else { zero() };
                let fresh = self.cur.op.map(|o| call.ops.contains(&o)).unwrap_or(false);
                let when = created_at.map_or(false, |t| t >= call.t && t <= self.now);
                if burn != Some((id, withdrawal_amount.0.clone()))
                    || withdrawal_amount.0 != want
                    || parse_addr(&destination) != to
                    || to.is_none()
                    || from != call.caller
                    || sub0(&from_subaccount) != [0; 32]
                    || !fresh
                    || self.wds.contains_key(&id)
                {
                    self.fail(
                        &["P08", "P04", "P21"],
                        format!("withdrawal {} of {} to {} by {} does not match the burn {:?} of {:?}", id, withdrawal_amount, destination, from, burn, call.kind),
                    );
                }
                if !when {
                    self.fail(&["P21"], format!("withdrawal {} is dated {:?}", id, created_at));
                }
                self.ucalls[u as usize].events.push(i);
                self.new_wd(id, None, id, withdrawal_amount.0.clone(), withdrawal_amount.0, to.unwrap_or_default(), from);
            }
            E::AcceptedErc20WithdrawalRequest {
                max_transaction_fee,
                withdrawal_amount,
                erc20_contract_address,
                destination,
                native_ledger_burn_index,
                erc20_ledger_id,
                erc20_ledger_burn_index,
                from,
                from_subaccount,
                created_at,
            } => {
                self.hit("P08");
                let id = nat64(&native_ledger_burn_index);
                let Some((u, call)) = self.cur.user.map(|u| (u, self.ucalls[u as usize].clone())) else {
                    return self.fail(&["P08", "P04"], format!("withdrawal {} came from nowhere", id));
                };
                let (ledger, amount, to) = match &call.kind {
                    UK::Erc20 { ledger, amount, to } => (*ledger, amount.clone(), parse_addr(to)),
                    _ => return self.fail(&["P08", "P04"], format!("withdrawal {} was recorded for another call", id)),
                };
                let Some(k) = self.registered.iter().cloned().find(|k| self.tokens[*k].ledger == ledger) else {
                    return self.fail(&["P08", "P13"], format!("withdrawal {} of an unregistered token", id));
                };
                let gas = self.ok_burn(&call, 0, &from);
                let burn = self.ok_burn(&call, self.tokens[k].li, &from);
                let bi = nat64(&erc20_ledger_burn_index);
                if gas != Some((id, max_transaction_fee.0.clone()))
                    || burn != Some((bi, withdrawal_amount.0.clone()))
                    || withdrawal_amount.0 != amount
                    || parse_addr(&destination) != to
                    || to.is_none()
                    || parse_addr(&erc20_contract_address) != Some(self.tokens[k].addr)
                    || erc20_ledger_id != ledger
                    || from != call.caller
                    || sub0(&from_subaccount) != [0; 32]
                    || self.wds.contains_key(&id)
                {
                    self.fail(
                        &["P08", "P04", "P21"],
                        format!("withdrawal {} of {} {} to {} by {} (gas {}) does not match burns {:?} {:?} of {:?}", id, withdrawal_amount, erc20_contract_address, destination, from, max_transaction_fee, gas, burn, call.kind),
                    );
                }
                if created_at < call.t || created_at > self.now {
                    self.fail(&["P21"], format!("withdrawal {} is dated {}", id, created_at));
                }
                self.ucalls[u as usize].events.push(i);
                self.new_wd(id, Some(k), bi, withdrawal_amount.0, max_transaction_fee.0, to.unwrap_or_default(), from);
            }
            E::FailedErc20WithdrawalRequest { withdrawal_id, reimbursed_amount, to, to_subaccount } => {
                self.hit("P08");
                let id = nat64(&withdrawal_id);
                let Some((u, call)) = self.cur.user.map(|u| (u, self.ucalls[u as usize].clone())) else {
                    return self.fail(&["P08", "P05"], format!("failed withdrawal {} came from nowhere", id));
                };
                let gas = self.ok_burn(&call, 0, &call.caller);
                let want = gas.as_ref().filter(|g| g.0 == id).map(|g| self.failed_amount(&call, &g.1));
                if !matches!(call.kind, UK::Erc20 { .. }) || want.as_ref() != Some(&reimbursed_amount.0) || to != call.caller || sub0(&to_subaccount) != [0; 32] || reimbursed_amount.0 == zero() {
                    self.fail(&["P08", "P05", "P21"], format!("failed withdrawal {} is to be reimbursed {} to {} (burnt {:?}, expected {:?})", id, reimbursed_amount, to, gas, want));
                }
                if self.failed.contains_key(&id) {
                    self.fail(&["P05", "P21"], format!("failed withdrawal {} is recorded twice", id));
                }
                self.ucalls[u as usize].events.push(i);
                self.failed.insert(id, Failed { amount: reimbursed_amount.0, to: call.caller, mint: None, recorded: false, quarantined: false });
            }
            E::CreatedTransaction { withdrawal_id, transaction } => self.created(nat64(&withdrawal_id), transaction),
            E::ReplacedTransaction { withdrawal_id, transaction } => self.replaced(nat64(&withdrawal_id), transaction),
            E::SignedTransaction { withdrawal_id, raw_transaction } => self.signed(nat64(&withdrawal_id), raw_transaction),
            E::FinalizedTransaction { withdrawal_id, transaction_receipt } => self.finalized(nat64(&withdrawal_id), transaction_receipt),
            E::ReimbursedNativeWithdrawal { reimbursed_in_block, withdrawal_id, reimbursed_amount, transaction_hash } => {
                let id = nat64(&withdrawal_id);
                self.hit("P05");
                if let Some(f) = self.failed.get_mut(&id) {
                    let ok = f.mint == Some(nat64(&reimbursed_in_block)) && f.amount == reimbursed_amount.0 && transaction_hash.is_none() && !f.recorded && !f.quarantined;
                    f.recorded = true;
                    if !ok {
                        self.fail(&["P05", "P21"], format!("reimbursement of failed withdrawal {} is recorded wrongly", id));
                    }
                } else {
                    self.reimbursed(id, None, reimbursed_in_block, reimbursed_amount, transaction_hash, id);
                }
            }
            E::ReimbursedErc20Withdrawal { withdrawal_id, burn_in_block, reimbursed_in_block, ledger_id, reimbursed_amount, transaction_hash } => {
                self.hit("P05");
                self.reimbursed(nat64(&withdrawal_id), Some(ledger_id), reimbursed_in_block, reimbursed_amount, transaction_hash, nat64(&burn_in_block));
            }
            E::QuarantinedReimbursement { index } => {
                let ok = self.cur.trapped.is_some() && self.cur.injected;
                let id = match &index {
                    ReimbursementIndex::Native { ledger_burn_index } => nat64(ledger_burn_index),
                    ReimbursementIndex::Erc20 { native_ledger_burn_index, .. } => nat64(native_ledger_burn_index),
                };
                let mut known = false;
                if let Some(f) = self.failed.get_mut(&id) {
                    known = !f.recorded && !f.quarantined;
                    f.quarantined = true;
                } else if let Some(w) = self.wds.get_mut(&id) {
                    known = w.reimb.is_none() && !w.quarantined && w.fin.is_some();
                    w.quarantined = true;
                }
                if !ok || !known {
                    self.fail(&["P05", "P06"], format!("reimbursement {:?} was quarantined without need ({:?})", index, self.cur.trapped));
                }
            }
        }
    }

    /// The amount owed after the token burn failed: the gas burn, less one ledger fee when the caller is to blame.
    pub fn failed_amount(&self, call: &UCall, gas: &BigUint) -> BigUint {
        let burn = call.ops.iter().map(|o| &self.ops[*o]).find(|o| o.li != 0);
        let blame = match burn.and_then(|o| o.res.clone()) {
            Some(LRes::Err(TransferFromError::InsufficientFunds { .. }))
            | Some(LRes::Err(TransferFromError::InsufficientAllowance { .. }))
            | Some(LRes::Err(TransferFromError::BadBurn { .. })) => true,
            _ => false,
        };
        if !blame {
            gas.clone()
        } else if gas > &self.conf.ledger_fee {
            gas - &self.conf.ledger_fee
        } else {
            zero()
        }
    }

    /// Successful burn by a call on a ledger: block index and amount.
    pub fn ok_burn(&self, call: &UCall, li: usize, from: &Principal) -> Option<(u64, BigUint)> {
        call.ops.iter().map(|o| &self.ops[*o]).find_map(|o| match (&o.req, &o.res) {
            (LReq::From(a), Some(LRes::Ok(n))) if o.li == li && acc(&a.to) == (self.me, [0; 32]) && a.from.owner == *from => Some((*n, a.amount.0.clone())),
            _ => None,
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn new_wd(&mut self, id: u64, token: Option<usize>, burn: u64, amount: BigUint, budget: BigUint, to: [u8; 20], from: Principal) {
        self.stats.borrow_mut().withdrawals += 1;
        self.wds.insert(
            id,
            Wd {
                id,
                token,
                burn,
                amount,
                budget,
                to,
                from,
                accepted: self.now,
                txs: vec![],
                signed: vec![],
                last_signed: false,
                fin: None,
                fin_tx: None,
                reimb: None,
                reimb_mint: None,
                quarantined: false,
            },
        );
    }

    #[allow(clippy::too_many_arguments)]
    fn accept(&mut self, tx: String, block: Nat, log: Nat, from: String, value: Nat, principal: Principal, sub: Option<[u8; 32]>, token: Option<String>) {
        self.hit("P01");
        let k = (h32(&tx), nat64(&log));
        let Some(d) = self.dep(&k) else {
            if self.chain.orphans.iter().any(|o| o.key() == k) {
                self.fail(&["P18", "P01"], format!("deposit {:?} was accepted although a reorganisation removed it", k));
            } else {
                self.fail(&["P12", "P01", "P21"], format!("deposit {:?} was accepted but never happened", k));
            }
            return;
        };
        let addr = token.as_ref().map_or(Some([0; 20]), |t| parse_addr(t));
        if !d.valid {
            return self.fail(&["P03", "P21"], format!("invalid deposit {:?} {:?} was accepted", k, d.form));
        }
        if token.is_some() && addr.and_then(|a| self.token_at(&a)).is_none() {
            return self.fail(&["P03", "P13"], format!("deposit {:?} of an unregistered token was accepted", k));
        }
        if d.block > self.chain.tag_head(self.conf.tag, self.now).saturating_sub(DEPTH[self.conf.net]) {
            self.fail(&["P18"], format!("deposit {:?} in block {} was accepted before it was deep enough", k, d.block));
        }
        if nat64(&block) != d.block || parse_addr(&from) != Some(d.from) || value.0 != d.value || principal.as_slice() != &d.principal[..] || sub0(&sub) != d.sub || addr != Some(d.token) {
            let mut p = vec!["P01", "P21"];
            if self.byz > 0 {
                p.push("P12");
            }
            self.fail(&p, format!("deposit {:?} was recorded as block {} from {} value {} for {} {:?} token {:?}", k, block, from, value, principal, sub, token));
        }
        let dust = self.is_dust(&d);
        let st = self.deps.entry(k).or_default();
        if st.accepted || st.invalid {
            return self.fail(&["P01", "P21"], format!("deposit {:?} was accepted twice", k));
        }
        st.accepted = true;
        if dust {
            self.dust.insert(k);
        }
        match self.token_at(&d.token) {
            None => self.native_balance += &d.value,
            Some(t) => *self.bal20.entry(t).or_default() += &d.value,
        }
    }

    fn minted(&mut self, s: EventSource, idx: Nat, token: Option<(String, String)>) {
        self.hit("P01");
        let k = (h32(&s.transaction_hash), nat64(&s.log_index));
        let idx = nat64(&idx);
        let Some(d) = self.dep(&k) else {
            return self.fail(&["P01", "P21"], format!("mint of unknown deposit {:?} was recorded", k));
        };
        let want = self.token_at(&d.token);
        let li = want.map_or(0, |t| self.tokens[t].li);
        let names = match (&token, want) {
            (None, None) => true,
            (Some((s, a)), Some(t)) => *s == self.tokens[t].symbol && parse_addr(a) == Some(self.tokens[t].addr),
            _ => false,
        };
        let st = self.deps.entry(k).or_default();
        let ok = st.minted.contains(&(li, idx)) && !st.recorded && !st.quarantined && names;
        st.recorded = true;
        if !ok {
            self.fail(&["P01", "P21"], format!("mint of {:?} in block {} as {:?} was recorded wrongly", k, idx, token));
        }
    }

    /// Fee estimates the executing task may be using.
    pub fn task_ests(&self) -> Vec<Est> {
        let start = self.cur.ctx.and_then(|c| self.ctxs.get(&c)).map_or(self.now, |c| c.start);
        self.ests.iter().filter(|e| e.t + 30 * S >= start).cloned().collect()
    }

    fn shape(&mut self, w: &Wd, t: &UnsignedTransaction, what: &str) {
        let gas = BigUint::from(if w.token.is_some() { 65_000u32 } else { 21_000 });
        if t.chain_id.0 != BigUint::from(CHAIN_IDS[self.conf.net]) || t.gas_limit.0 != gas || !t.access_list.is_empty() {
            self.fail(&["P07", "P20", "P16"], format!("{} for withdrawal {}: chain {} gas {}", what, w.id, t.chain_id, t.gas_limit));
        }
        let (dest, data) = match w.token {
            None => (w.to, vec![]),
            Some(k) => {
                let mut d = vec![0xa9, 0x05, 0x9c, 0xbb];
                d.extend_from_slice(&word(&w.to));
                d.extend_from_slice(&be32(&w.amount));
                (self.tokens[k].addr, d)
            }
        };
        if parse_addr(&t.destination) != Some(dest) || t.data.as_slice() != &data[..] || (w.token.is_some() && t.value.0 != zero()) {
            self.fail(&["P04"], format!("{} for withdrawal {} goes to {} with value {} data {}", what, w.id, t.destination, t.value, hex::encode(&t.data)));
        }
        let cost = &t.value.0 + &gas * &t.max_fee_per_gas.0;
        let allowed = if w.token.is_some() { &w.budget } else { &w.amount };
        if &cost > allowed {
            self.fail(&["P04", "P10", "P07"], format!("{} for withdrawal {} may cost {} of {}", what, w.id, cost, allowed));
        }
        if w.token.is_none() && &cost != allowed {
            self.fail(&["P04", "P07"], format!("{} for withdrawal {} spends {} of {}", what, w.id, cost, allowed));
        }
        if t.max_priority_fee_per_gas.0 > t.max_fee_per_gas.0 {
            self.fail(&["P07"], format!("{} for withdrawal {} has a priority fee above its maximum", what, w.id));
        }
    }

    fn created(&mut self, id: u64, t: UnsignedTransaction) {
        self.hit("P07");
        self.hit("P04");
        let Some(w) = self.wds.get(&id).cloned() else {
            return self.fail(&["P04", "P07"], format!("transaction created for unknown withdrawal {}", id));
        };
        if !w.txs.is_empty() || w.fin.is_some() {
            self.fail(&["P04", "P07"], format!("a second transaction was created for withdrawal {}", id));
        }
        if nat64(&t.nonce) != self.next_nonce {
            self.fail(&["P07", "P20"], format!("withdrawal {} got nonce {} instead of {}", id, t.nonce, self.next_nonce));
        }
        self.next_nonce = self.next_nonce.max(nat64(&t.nonce).wrapping_add(1));
        self.shape(&w, &t, "transaction");
        let ok = self.task_ests().iter().any(|e| {
            t.max_priority_fee_per_gas.0 == e.prio
                && match w.token {
                    None => t.max_fee_per_gas.0 == e.max_fee(),
                    Some(_) => t.max_fee_per_gas.0 == &w.budget / 65_000u32 && t.max_fee_per_gas.0 >= &e.base + &e.prio,
                }
        });
        if !ok {
            self.fail(&["P07", "P16"], format!("transaction for withdrawal {} has fees {}/{} that no current estimate explains", id, t.max_fee_per_gas, t.max_priority_fee_per_gas));
        }
        let w = self.wds.get_mut(&id).unwrap();
        w.txs.push(t);
        w.last_signed = false;
    }

    fn replaced(&mut self, id: u64, t: UnsignedTransaction) {
        self.hit("P07");
        self.stats.borrow_mut().replaced += 1;
        let Some(w) = self.wds.get(&id).cloned() else {
            return self.fail(&["P04", "P07"], format!("transaction replaced for unknown withdrawal {}", id));
        };
        let Some(old) = w.signed.last().cloned() else {
            return self.fail(&["P04", "P07"], format!("transaction of withdrawal {} replaced before it was signed", id));
        };
        if w.fin.is_some() {
            self.fail(&["P04", "P07"], format!("transaction of finalised withdrawal {} replaced", id));
        }
        if t.nonce.0 != old.nonce {
            self.fail(&["P04", "P07"], format!("replacement for withdrawal {} has nonce {} instead of {}", id, t.nonce, old.nonce));
        }
        self.shape(&w, &t, "replacement");
        let n = self.cur.ctx.and_then(|c| self.ctxs.get(&c)).and_then(|c| c.latest);
        if n.map_or(true, |n| t.nonce.0 < BigUint::from(n)) {
            self.fail(&["P07", "P12"], format!("nonce {} is replaced although {:?} transactions are known to be mined", t.nonce, n));
        }
        // Raising the fees of what is stuck behind a transaction that cannot be raised is a waste.
        let futile = |e: &Est| {
            self.wds.values().any(|o| {
                let Some(last) = o.signed.last().filter(|l| o.fin.is_none() && l.nonce < old.nonce && n.map_or(false, |n| l.nonce >= BigUint::from(n))) else { return false };
                if last.max_fee >= &e.base + &e.prio && last.prio >= e.prio {
                    return false;
                }
                let prio = (&last.prio + (&last.prio + 9u32) / 10u32).max(e.prio.clone());
                let max = last.max_fee.clone().max(&e.base + &prio);
                let (gas, allow) = if o.token.is_some() { (65_000u32, &o.budget) } else { (21_000, &o.amount) };
                max * gas > *allow
            })
        };
        let ests = self.task_ests();
        if !ests.is_empty() && ests.iter().all(futile) {
            self.fail(&["P07"], format!("nonce {} is replaced behind a transaction whose fees can no longer be raised", old.nonce));
        }
        let ok = self.task_ests().iter().any(|e| {
            let demanded = old.max_fee < &e.base + &e.prio || old.prio < e.prio;
            let prio = (&old.prio + (&old.prio + 9u32) / 10u32).max(e.prio.clone());
            let max = old.max_fee.clone().max(&e.base + &prio);
            demanded && t.max_priority_fee_per_gas.0 == prio && t.max_fee_per_gas.0 == max
        });
        if !ok {
            self.fail(
                &["P07", "P16"],
                format!("replacement for withdrawal {} has fees {}/{} (before: {}/{}) that no current estimate explains", id, t.max_fee_per_gas, t.max_priority_fee_per_gas, old.max_fee, old.prio),
            );
        }
        let w = self.wds.get_mut(&id).unwrap();
        w.txs.push(t);
        w.last_signed = false;
    }

    fn signed(&mut self, id: u64, raw: String) {
        self.hit("P07");
        let Some(w) = self.wds.get(&id).cloned() else {
            return self.fail(&["P04", "P07"], format!("transaction signed for unknown withdrawal {}", id));
        };
        let bytes = unhex(&raw).unwrap_or_default();
        let tx = match decode_tx(&bytes) {
            Ok(t) => t,
            Err(e) => return self.fail(&["P07"], format!("transaction signed for withdrawal {} is malformed: {}", id, e)),
        };
        let Some(t) = w.txs.last() else {
            return self.fail(&["P04", "P07"], format!("transaction signed for withdrawal {} was never created", id));
        };
        let same = tx.chain_id == t.chain_id.0
            && tx.nonce == t.nonce.0
            && tx.prio == t.max_priority_fee_per_gas.0
            && tx.max_fee == t.max_fee_per_gas.0
            && tx.gas == t.gas_limit.0
            && Some(tx.to) == parse_addr(&t.destination)
            && tx.value == t.value.0
            && tx.data == t.data.to_vec()
            && tx.access == 0;
        if !same || w.last_signed {
            self.fail(&["P07", "P04", "P21"], format!("signed transaction of withdrawal {} differs from the recorded one: {:?}", id, tx));
        }
        if Some(tx.signer) != self.minter_addr {
            self.fail(&["P07"], format!("transaction of withdrawal {} is signed by {}", id, hex0x(&tx.signer)));
        }
        if self.known_raw.insert(bytes, id).is_some() {
            self.fail(&["P07"], format!("the same transaction was signed again for withdrawal {}", id));
        }
        let w = self.wds.get_mut(&id).unwrap();
        w.signed.push(tx);
        w.last_signed = true;
    }

    fn finalized(&mut self, id: u64, r: TransactionReceipt) {
        self.hit("P05");
        self.stats.borrow_mut().finalized += 1;
        let Some(w) = self.wds.get(&id).cloned() else {
            return self.fail(&["P05", "P21"], format!("unknown withdrawal {} was finalised", id));
        };
        if w.fin.is_some() {
            return self.fail(&["P05", "P21"], format!("withdrawal {} was finalised twice", id));
        }
        if let Some(x) = self.cur.ctx.and_then(|c| self.ctxs.get_mut(&c)) {
            x.final_above |= x.latest.map_or(false, |n| w.signed.last().map_or(false, |t| t.nonce >= BigUint::from(n)));
        }
        let hash = h32(&r.transaction_hash);
        let now = self.now;
        let Some(tx) = w.signed.iter().find(|t| t.hash == hash).cloned() else {
            return self.fail(&["P05", "P12", "P21"], format!("withdrawal {} was finalised with a foreign transaction {}", id, r.transaction_hash));
        };
        let truth = self.chain.receipt(&hash, now);
        let mut props = vec!["P05", "P21"];
        if self.byz > 0 {
            props.push("P12");
        }
        match truth {
            None => {
                props.push("P18");
                self.fail(&props, format!("withdrawal {} was finalised though its transaction is not in the chain", id))
            }
            Some(m) => {
                if m.block > self.chain.final_head(now) {
                    self.fail(&["P18", "P05"], format!("withdrawal {} was finalised before block {} was final", id, m.block));
                }
                let same = nat64(&r.block_number) == m.block
                    && h32(&r.block_hash) == self.chain.block_hash(m.block)
                    && r.effective_gas_price.0 == m.price
                    && nat64(&r.gas_used) == m.gas_used
                    && (r.status == TransactionStatus::Success) == m.ok;
                if !same {
                    self.fail(&props, format!("withdrawal {} was finalised with {:?}; the chain says {:?}", id, r, m));
                }
            }
        }
        let fee = &r.effective_gas_price.0 * &r.gas_used.0;
        let mut out = fee;
        if r.status == TransactionStatus::Success {
            out += &tx.value;
            if let Some(k) = w.token {
                let b = self.bal20.entry(k).or_default();
                if *b < w.amount {
                    self.fail(&["P10"], format!("withdrawal {} paid more than was ever deposited", id));
                } else {
                    *b -= &w.amount;
                }
            }
        }
        if self.native_balance < out {
            self.fail(&["P10"], format!("withdrawal {} spent more than was ever deposited", id));
        } else {
            self.native_balance -= out;
        }
        let w = self.wds.get_mut(&id).unwrap();
        w.fin = Some(r);
        w.fin_tx = Some(tx);
    }

    fn reimbursed(&mut self, id: u64, ledger: Option<Principal>, block: Nat, amount: Nat, hash: Option<String>, burn: u64) {
        let Some(w) = self.wds.get(&id).cloned() else {
            return self.fail(&["P05", "P21"], format!("reimbursement of unknown withdrawal {} was recorded", id));
        };
        let li = w.token.map_or(0, |k| self.tokens[k].li);
        let ok = ledger.map_or(0, |l| self.ledgers.iter().position(|x| x.id == l).unwrap_or(999)) == li
            && ledger.is_some() == w.token.is_some()
            && w.reimb_mint == Some((li, nat64(&block)))
            && w.burn == burn
            && w.fin_tx.as_ref().map(|t| t.hash) == hash.as_ref().map(|h| h32(h))
            && w.fin_tx.as_ref().map(|t| if w.token.is_none() { t.value.clone() } else { w.amount.clone() }) == Some(amount.0.clone())
            && w.reimb.is_none()
            && !w.quarantined;
        if !ok {
            self.fail(&["P05", "P21"], format!("reimbursement of withdrawal {} ({} in block {}, {:?}) was recorded wrongly", id, amount, block, hash));
        }
        self.wds.get_mut(&id).unwrap().reimb = Some((amount.0, nat64(&block)));
    }
}
