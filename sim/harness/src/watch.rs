//! Periodic observation of the minter through its queries, upgrades, and the verdict at the end of a run.
use crate::chain::*;
use crate::judge::two256;
use crate::plan::*;
use crate::replica::*;
use crate::types::*;
use crate::util::*;
use crate::world::*;
use candid::{Decode, Encode, Nat, Principal};
use num_bigint::BigUint;

fn zero() -> BigUint {
    BigUint::default()
}

/// Everything a client can see that an upgrade must not change.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub info: MinterInfo,
    pub contract: Vec<u8>,
    pub status: Vec<(u64, Vec<WithdrawalDetail>)>,
    pub events: u64,
}

fn snapshot(rep: &mut Replica, caller: &[u8], ids: &[u64]) -> Result<Snap, String> {
    let b = rep.query("get_minter_info", caller, &Encode!().unwrap())?;
    let mut info = Decode!(&b, MinterInfo).map_err(|e| e.to_string())?;
    info.minter_address = None;
    info.last_observed_block_number = None;
    info.last_gas_fee_estimate = None;
    let contract = rep.query("smart_contract_address", caller, &Encode!().unwrap())?;
    let mut status = vec![];
    for i in ids {
        let b = rep.query("withdrawal_status", caller, &Encode!(&WithdrawalSearchParameter::ByWithdrawalId(*i)).unwrap())?;
        status.push((*i, Decode!(&b, Vec<WithdrawalDetail>).map_err(|e| e.to_string())?));
    }
    let b = rep.query("get_events", caller, &Encode!(&GetEventsArg { start: 0, length: 1 }).unwrap())?;
    let events = Decode!(&b, GetEventsResult).map_err(|e| e.to_string())?.total_event_count;
    Ok(Snap { info, contract, status, events })
}

fn differences(a: &Snap, b: &Snap) -> Option<String> {
    if a.info != b.info {
        return Some(format!("minter info changed from {:?} to {:?}", a.info, b.info));
    }
    if a.contract != b.contract {
        return Some("the helper contract changed".into());
    }
    for (x, y) in a.status.iter().zip(&b.status) {
        if x != y {
            return Some(format!("withdrawal {} changed from {:?} to {:?}", x.0, x.1, y.1));
        }
    }
    None
}

pub type Pending = (Vec<&'static str>, String);

impl World<'_> {
    // ---- installation
    pub fn bad_init(&mut self, k: u8) -> Vec<u8> {
        let mut a = self.init_arg();
        match k {
            0 => return Encode!(&MinterArg::UpgradeArg(UpgradeArg::default())).unwrap(),
            1 => a.native_minimum_withdrawal_amount = Nat::from(0u8),
            2 => {
                if a.native_ledger_transfer_fee.0 == zero() {
                    a.native_ledger_transfer_fee = Nat::from(5u8);
                }
                a.native_minimum_withdrawal_amount = a.native_ledger_transfer_fee.clone() - Nat::from(1u8);
            }
            3 => a.helper_contract_address = Some(hex0x(&[0; 20])),
            4 => a.helper_contract_address = Some("0x12zz".into()),
            5 => a.ecdsa_key_name = "".into(),
            6 => a.ecdsa_key_name = "  ".into(),
            7 => a.native_ledger_id = Principal::anonymous(),
            8 => a.native_minimum_withdrawal_amount = nat(&two256()),
            9 => a.next_transaction_nonce = nat(&two256()),
            10 => a.last_scraped_block_number = nat(&(two256() - 1u8)),
            11 => a.min_max_priority_fee_per_gas = nat(&two256()),
            12 => a.native_ledger_transfer_fee = nat(&two256()),
            13 => a.deposit_native_fee = nat(&two256()),
            14 => a.withdrawal_native_fee = nat(&(two256() + 1u8)),
            _ => a.last_scraped_block_number = nat(&two256()),
        }
        Encode!(&MinterArg::InitArg(a)).unwrap()
    }

    fn tokens_ok(&self, i: &MinterInfo) -> Option<String> {
        let mut got: Vec<_> = i
            .supported_erc20_tokens
            .iter()
            .flatten()
            .map(|t| (t.erc20_token_symbol.clone(), t.erc20_contract_address.clone(), t.ledger_canister_id))
            .collect();
        let mut want: Vec<_> = self.registered.iter().map(|k| (self.tokens[*k].symbol.clone(), checksum(&self.tokens[*k].addr), self.tokens[*k].ledger)).collect();
        got.sort();
        want.sort();
        if got != want {
            return Some(format!("the supported tokens are {:?} instead of {:?}", got, want));
        }
        None
    }

    pub fn check_config(&mut self) {
        let Some(i) = self.info() else { return };
        self.check_config_of(&i);
    }
    fn check_config_of(&mut self, i: &MinterInfo) {
        self.hit("P20");
        let opt = |b: &BigUint| if *b == zero() { None } else { Some(nat(b)) };
        let c = self.conf.clone();
        let fees = |x: &Option<Nat>| x.clone().filter(|n| n.0 != zero());
        let bad = if i.minimum_withdrawal_amount != Some(nat(&c.min_wd)) {
            format!("minimum withdrawal {:?} instead of {}", i.minimum_withdrawal_amount, c.min_wd)
        } else if fees(&i.deposit_native_fee) != opt(&c.dep_fee) {
            format!("deposit fee {:?} instead of {}", i.deposit_native_fee, c.dep_fee)
        } else if fees(&i.withdrawal_native_fee) != opt(&c.wd_fee) {
            format!("withdrawal fee {:?} instead of {}", i.withdrawal_native_fee, c.wd_fee)
        } else if i.block_height != Some(tag_of(c.tag)) {
            format!("block height {:?} instead of {:?}", i.block_height, tag_of(c.tag))
        } else if i.helper_smart_contract_address != self.helper_set.then(|| checksum(&c.helper)) {
            format!("helper contract {:?} instead of {}", i.helper_smart_contract_address, checksum(&c.helper))
        } else if i.native_twin_token_ledger_id != Some(self.ledgers[0].id) {
            format!("native ledger {:?}", i.native_twin_token_ledger_id)
        } else if i.ledger_suite_manager_id != Some(self.lsm) {
            format!("ledger suite manager {:?}", i.ledger_suite_manager_id)
        } else if i.minter_address.is_some() && i.minter_address != self.minter_addr.map(|a| checksum(&a)) {
            format!("minter address {:?}", i.minter_address)
        } else {
            String::new()
        };
        if !bad.is_empty() {
            self.fail(&["P20"], format!("the minter reports {}", bad));
        }
        self.hit("P13");
        if let Some(m) = self.tokens_ok(i) {
            self.fail(&["P13", "P20"], m);
        }
    }

    pub fn check_est(&mut self) {
        let Some(i) = self.info() else { return };
        self.check_est_of(&i);
    }
    fn check_est_of(&mut self, i: &MinterInfo) {
        self.hit("P16");
        let got = i.last_gas_fee_estimate.as_ref().map(|g| (g.timestamp, g.max_fee_per_gas.0.clone(), g.max_priority_fee_per_gas.0.clone()));
        let want = self.est.as_ref().map(|e| (e.t, e.max_fee(), e.prio.clone()));
        if got != want {
            self.fail(&["P16", "P20"], format!("the fee estimate is {:?} instead of {:?}", got, want));
        }
    }

    // ---- withdrawal status
    pub fn status_of(&self, id: u64) -> RetrieveWithdrawalStatus {
        use RetrieveWithdrawalStatus as R;
        let Some(w) = self.wds.get(&id) else { return R::NotFound };
        match self.wd_status(w) {
            WithdrawalStatus::Pending => R::Pending,
            WithdrawalStatus::TxCreated => R::TxCreated,
            WithdrawalStatus::TxSent(t) => R::TxSent(t),
            WithdrawalStatus::TxFinalized(f) => R::TxFinalized(f),
        }
    }
    fn wd_status(&self, w: &Wd) -> WithdrawalStatus {
        if w.txs.is_empty() {
            return WithdrawalStatus::Pending;
        }
        if let (Some(r), Some(t)) = (&w.fin, &w.fin_tx) {
            let transaction_hash = hex0x(&t.hash);
            return WithdrawalStatus::TxFinalized(if let Some((amount, block)) = &w.reimb {
                TxFinalizedStatus::Reimbursed { transaction_hash, reimbursed_amount: nat(amount), reimbursed_in_block: Nat::from(*block) }
            } else if r.status == TransactionStatus::Failure {
                TxFinalizedStatus::PendingReimbursement(Transaction { transaction_hash })
            } else {
                TxFinalizedStatus::Success { transaction_hash, effective_transaction_fee: Some(nat(&(&r.effective_gas_price.0 * &r.gas_used.0))) }
            });
        }
        if !w.last_signed {
            return WithdrawalStatus::TxCreated;
        }
        WithdrawalStatus::TxSent(Transaction { transaction_hash: hex0x(&w.signed.last().unwrap().hash) })
    }
    fn detail(&self, w: &Wd) -> WithdrawalDetail {
        let value = match (&w.fin_tx, w.txs.last()) {
            (Some(t), _) => Some(t.value.clone()),
            (None, Some(t)) => Some(t.value.0.clone()),
            _ => None,
        };
        WithdrawalDetail {
            withdrawal_id: w.id,
            recipient_address: checksum(&w.to),
            from: w.from,
            from_subaccount: None,
            token_symbol: w.token.map_or(self.native_symbol(), |k| self.tokens[k].symbol.clone()),
            withdrawal_amount: nat(&w.amount),
            max_transaction_fee: match w.token {
                Some(_) => Some(nat(&w.budget)),
                None => value.map(|v| if w.amount >= v { nat(&(&w.amount - v)) } else { Nat::from(0u8) }),
            },
            status: self.wd_status(w),
        }
    }
    fn search(&mut self, p: WithdrawalSearchParameter, want: Vec<u64>) {
        self.hit("P14");
        let arg = Encode!(&p).unwrap();
        match self.query::<Vec<WithdrawalDetail>>("withdrawal_status", arg) {
            Ok(mut got) => {
                got.sort_by_key(|d| d.withdrawal_id);
                for d in got.iter_mut() {
                    if d.from_subaccount == Some([0; 32]) {
                        d.from_subaccount = None;
                    }
                }
                let want: Vec<WithdrawalDetail> = want.iter().map(|i| self.detail(&self.wds[i])).collect();
                if got != want {
                    let k = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
                    self.fail(
                        &["P14"],
                        format!("search {:?} found {} instead of {} withdrawals; {:?} instead of {:?}", p, got.len(), want.len(), got.get(k), want.get(k)),
                    );
                }
            }
            Err(e) => self.fail(&["P14"], format!("search {:?} failed: {}", p, e)),
        }
    }

    // ---- the periodic check
    pub fn check(&mut self) {
        if matches!(self.rep.status, Status::Empty) {
            return;
        }
        let t = self.now;
        self.chain.advance(t);
        if let Some(i) = self.info() {
            self.check_config_of(&i);
            self.check_est_of(&i);
            self.hit("P10");
            if i.native_balance != Some(nat(&self.native_balance)) {
                self.fail(&["P10"], format!("the reported balance is {:?} instead of {}", i.native_balance, self.native_balance));
            }
            let mut got: Vec<_> = i.erc20_balances.iter().flatten().map(|b| (b.erc20_contract_address.clone(), b.balance.0.clone())).collect();
            let mut want: Vec<_> = self.registered.iter().map(|k| (checksum(&self.tokens[*k].addr), self.bal20.get(k).cloned().unwrap_or_default())).collect();
            got.sort();
            want.sort();
            if got != want {
                self.fail(&["P10"], format!("the reported token balances are {:?} instead of {:?}", got, want));
            }
            self.hit("P19");
            if i.last_scraped_block_number != Some(Nat::from(self.last_scraped)) {
                self.fail(&["P19"], format!("the reported scraped block is {:?} instead of {}", i.last_scraped_block_number, self.last_scraped));
            }
            self.hit("P17");
            if i.last_observed_block_number != self.observed.map(Nat::from) {
                self.fail(&["P17", "P18"], format!("the reported observed block is {:?} instead of {:?}", i.last_observed_block_number, self.observed));
            }
        }
        let ids: Vec<u64> = self.wds.keys().cloned().collect();
        for id in ids.iter().rev().take(12).cloned().collect::<Vec<_>>() {
            self.search(WithdrawalSearchParameter::ByWithdrawalId(id), vec![id]);
        }
        self.check_promises();
        self.check_mint_retry();
        self.solvency();
        self.payments();
    }

    fn mined_of(&self, w: &Wd) -> Vec<Mined> {
        self.chain.mined.iter().filter(|m| w.signed.iter().any(|t| t.hash == m.tx.hash)).cloned().collect()
    }

    fn solvency(&mut self) {
        self.hit("P10");
        let mut need = self.ledgers[0].supply.clone();
        let mut need20: Vec<BigUint> = self.tokens.iter().map(|t| self.ledgers[t.li].supply.clone()).collect();
        for w in self.wds.values() {
            let m = self.mined_of(w);
            match (m.last(), w.token) {
                (None, None) => need += &w.amount,
                (None, Some(k)) => {
                    need += &w.budget;
                    need20[k] += &w.amount;
                }
                (Some(m), _) if m.ok || w.reimb_mint.is_some() => {}
                (Some(m), None) => need += &m.tx.value,
                (Some(_), Some(k)) => need20[k] += &w.amount,
            }
        }
        for f in self.failed.values() {
            if f.mint.is_none() {
                need += &f.amount;
            }
        }
        if self.chain.balance < need {
            self.fail(&["P10"], format!("the minter owes {} but holds {} on chain", need, self.chain.balance));
        }
        for k in 0..self.tokens.len() {
            let have = self.chain.erc20.get(&self.tokens[k].addr).cloned().unwrap_or_default();
            if have < need20[k] {
                self.fail(&["P10"], format!("the minter owes {} of token {} but holds {}", need20[k], self.tokens[k].symbol, have));
            }
        }
    }

    fn payments(&mut self) {
        self.hit("P04");
        let mut seen: std::collections::BTreeMap<u64, u64> = Default::default();
        for m in self.chain.mined.clone() {
            let owners: Vec<u64> = self.wds.values().filter(|w| w.signed.iter().any(|t| t.hash == m.tx.hash)).map(|w| w.id).collect();
            if owners.len() != 1 {
                self.fail(&["P04"], format!("transaction {} belongs to withdrawals {:?}", hex0x(&m.tx.hash), owners));
                continue;
            }
            let n = seen.entry(owners[0]).or_default();
            *n += 1;
            if *n > 1 {
                self.fail(&["P04", "P10", "P05"], format!("withdrawal {} was paid {} times", owners[0], n));
            }
        }
    }

    // ---- progress
    /// What is still owed to somebody.
    pub fn pending(&mut self) -> Vec<Pending> {
        let mut out: Vec<Pending> = vec![];
        let hostile = self.chain.deps.iter().any(|d| !d.valid || self.is_dust(d)) && self.stats.borrow().genuine_traps > 0;
        for (k, st) in &self.deps {
            let Some(d) = self.dep(k) else { continue };
            let mut p = vec!["P02"];
            if d.token != [0; 20] {
                p.push("P13");
            }
            p.extend(self.idle(if st.accepted { Class::Mint } else { Class::Scrape }));
            if self.byz > 0 {
                p.push("P12");
            }
            if hostile || self.chain.deps.iter().any(|d| !d.valid) {
                p.push("P03");
            }
            if st.owed && st.minted.is_empty() && !st.quarantined && !st.invalid && !self.is_dust(&d) {
                out.push((p, format!("the deposit of {} in block {} ({} log {}) was never credited", d.value, d.block, hex0x(&k.0), k.1)));
            } else if !st.minted.is_empty() && !st.recorded && !st.quarantined {
                out.push((p, format!("the credit for {} log {} was never recorded", hex0x(&k.0), k.1)));
            }
        }
        let (b, p) = (BigUint::from(self.chain.calm_base()), BigUint::from(self.chain.calm_tip()).max(self.conf.prio_min.clone()));
        let mut stuck: Option<u64> = None;
        for w in self.wds.values() {
            if w.fin.is_some() || w.txs.is_empty() {
                continue;
            }
            let t = w.txs.last().unwrap();
            let old = &t.max_priority_fee_per_gas.0;
            let prio = (old + (old + 9u32) / 10u32).max(p.clone());
            let (gas, allow) = if w.token.is_some() { (65_000u32, &w.budget) } else { (21_000, &w.amount) };
            let n = nat64(&t.nonce);
            if (t.max_fee_per_gas.0 < b || (self.chain.tips_only && *old < p)) && *allow < (&b + prio) * gas && stuck.map_or(true, |s| n < s) {
                stuck = Some(n);
            }
        }
        for w in self.wds.values() {
            match &w.fin {
                Some(r) => {
                    if r.status == TransactionStatus::Failure && w.reimb.is_none() && !w.quarantined {
                        let mut p = vec!["P05", "P06"];
                        p.extend(self.idle(Class::Reimburse));
                        out.push((p, format!("failed withdrawal {} was never reimbursed", w.id)));
                    }
                }
                None => {
                    let excused = match w.txs.last() {
                        None => match w.token {
                            None => w.amount < (&b * 2u32 + &p) * 21_000u32,
                            Some(_) => &w.budget / 65_000u32 < &b + &p,
                        },
                        Some(t) => stuck.map_or(false, |s| nat64(&t.nonce) >= s),
                    };
                    if !excused {
                        let mut p = vec!["P06"];
                        p.extend(self.idle(Class::Retrieve));
                        out.push((p, format!("withdrawal {} of {} was never completed ({:?})", w.id, w.amount, self.wd_status(w))));
                    }
                }
            }
        }
        for (id, f) in &self.failed {
            if !f.recorded && !f.quarantined {
                let mut p = vec!["P05", "P06"];
                p.extend(self.idle(Class::Reimburse));
                out.push((p, format!("failed withdrawal {} was never reimbursed its gas", id)));
            }
        }
        if self.fee_mint_tries + self.injected_traps + self.perform_fails < self.fee_due {
            out.push((vec!["P01"], format!("{} deposit fees were due and {} were minted", self.fee_due, self.fee_mint_tries)));
        }
        let floor = self.chain.tag_head(self.conf.tag, self.now - 900 * S).saturating_sub(DEPTH[self.conf.net]);
        if self.now >= T0 + (self.plan.active_s + 1500) * S && self.last_scraped < floor && self.rep.status == Status::Running {
            let mut p = vec!["P02", "P19"];
            p.extend(self.idle(Class::Scrape));
            if self.byz > 0 {
                p.push("P12");
            }
            if hostile || self.chain.deps.iter().any(|d| !d.valid) {
                p.push("P03");
            }
            out.push((p, format!("only blocks up to {} were read although {} was safe long ago", self.last_scraped, floor)));
        }
        out
    }
    /// A task that has work but has not been seen for long is taken to be locked out.
    fn idle(&self, c: Class) -> Vec<&'static str> {
        let last = self.active.get(&c).cloned().unwrap_or(T0);
        if self.rep.status != Status::Running || self.now < last + 1300 * S {
            return vec![];
        }
        if c == Class::Scrape {
            vec!["P11", "P17"]
        } else {
            vec!["P11"]
        }
    }
    pub fn settled(&mut self) -> bool {
        let last = self.chain.deps.iter().filter(|d| d.canonical).map(|d| d.block).max().unwrap_or(0);
        self.rep.status == Status::Running && self.last_scraped >= last && self.ucalls.iter().all(|u| !u.open) && self.pending().is_empty()
    }

    pub fn finish(&mut self) {
        if self.rep.status == Status::Empty || self.enough() {
            return;
        }
        self.check();
        for p in ["P02", "P05", "P06", "P12", "P03"] {
            self.hit(p);
        }
        if !self.stats.borrow().settled {
            for (p, m) in self.pending() {
                self.fail(&p, m);
            }
            let open: Vec<String> = self.ucalls.iter().filter(|u| u.open).map(|u| format!("{:?}", u.kind)).collect();
            if !open.is_empty() {
                self.fail(&["P08", "P06"], format!("calls were never answered: {:?}", open));
            }
        }
        self.queries(3);
        self.full_log();
    }

    /// At the very end of some runs the operator has blocks read again, or the minter starts over from
    /// its log without having been told to save anything: nothing may be minted a second time.
    pub fn rescan(&mut self) {
        let h = h2(self.plan.seed, 0x4e5c);
        if h % 3 != 0 || !self.stats.borrow().settled || !self.violations.is_empty() || !self.rep.contexts.is_empty() {
            return;
        }
        self.rescan = true;
        self.hit("P01");
        self.tick();
        let lo = self.first_block.min(self.last_scraped);
        let n = match h / 3 % 3 {
            0 => lo,
            // Just before a deposit.
            1 => self.chain.deps.iter().filter(|d| d.canonical && d.block <= self.last_scraped).map(|d| d.block - 1).max().unwrap_or(lo),
            _ => lo + (h / 9) % (self.last_scraped - lo + 1),
        };
        let ua = UpgradeArg { last_scraped_block_number: Some(Nat::from(n)), ..UpgradeArg::default() };
        self.cur = Cur { label: "upgrade".into(), ..Cur::default() };
        self.note(&format!("upgrade, reading again from block {}", n));
        let arg = Encode!(&Some(MinterArg::UpgradeArg(ua.clone()))).unwrap();
        let admin = self.admin;
        let fx = self.rep.upgrade(admin.as_slice(), &arg);
        self.rep.exec().dirty = true;
        if fx.trapped.is_some() {
            return;
        }
        self.sync_events();
        self.adopt(&ua);
        self.epoch = self.now;
        self.end = self.now + 1400 * S;
        self.arm();
        self.drive();
    }

    fn full_log(&mut self) {
        let mut all = vec![];
        loop {
            let Some(r) = self.get_events(all.len() as u64, 37) else { return };
            if r.events.is_empty() {
                break;
            }
            all.extend(r.events);
        }
        self.hit("P21");
        if all != self.events {
            self.fail(&["P21", "P09"], format!("the log read back ({} entries) differs from what was written ({})", all.len(), self.events.len()));
        }
    }

    // ---- upgrades
    fn ids(&self) -> Vec<u64> {
        self.wds.keys().cloned().chain(self.failed.keys().cloned()).collect()
    }
    fn snap(&mut self) -> Option<Snap> {
        self.rep.exec().now = self.now;
        let ids = self.ids();
        let u = self.users[0];
        match snapshot(self.rep, u.as_slice(), &ids) {
            Ok(s) => Some(s),
            Err(e) => {
                self.fail(&["P14", "P09"], format!("a query failed: {}", e));
                None
            }
        }
    }

    /// Would an upgrade right now lose or change anything?  The whole upgrade is undone afterwards.
    pub fn shadow(&mut self) {
        if self.rep.status == Status::Empty {
            return;
        }
        let Some(before) = self.snap() else { return };
        self.hit("P09");
        let ids = self.ids();
        let u = self.users[0].as_slice().to_vec();
        let admin = self.admin;
        let arg = Encode!(&None::<MinterArg>).unwrap();
        let r = self.rep.shadow_upgrade(admin.as_slice(), &arg, |rep| snapshot(rep, &u, &ids));
        match r {
            Err(m) => self.fail(&["P09"], format!("an upgrade at this point fails: {}", m)),
            Ok(Err(m)) => self.fail(&["P09"], format!("after an upgrade at this point queries fail: {}", m)),
            Ok(Ok(after)) => {
                if after.events != before.events + 1 {
                    self.fail(&["P09", "P21"], format!("an upgrade changes the log from {} to {} entries", before.events, after.events));
                }
                if let Some(d) = differences(&before, &after) {
                    self.fail(&["P09"], format!("an upgrade at this point: {}", d));
                }
            }
        }
        self.note("shadow upgrade");
    }

    fn upgrade_arg(&mut self, spec: u64) -> (UpgradeArg, bool) {
        let mut r = Rng::new(h3(self.plan.seed, 0x0b9, spec + 1_000_003 * self.upgrades_done));
        let mut a = UpgradeArg::default();
        if spec == NAME_HELPER {
            a.helper_contract_address = Some(checksum(&self.conf.helper));
            return (a, true);
        }
        if spec % 10 == 3 {
            return (a, true);
        }
        if spec % 10 == 9 {
            match r.below(11) {
                8 => a.native_minimum_withdrawal_amount = Some(nat(&two256())),
                9 => a.native_ledger_transfer_fee = Some(nat(&(two256() + 7u8))),
                10 => a.min_max_priority_fee_per_gas = Some(nat(&two256())),
                0 => a.native_minimum_withdrawal_amount = Some(Nat::from(0u8)),
                1 => {
                    if self.conf.ledger_fee == zero() {
                        a.native_ledger_transfer_fee = Some(nat(&(&self.conf.min_wd + 1u8)));
                    } else {
                        a.native_minimum_withdrawal_amount = Some(nat(&(&self.conf.ledger_fee - 1u8)));
                    }
                }
                2 => a.helper_contract_address = Some(hex0x(&[0; 20])),
                3 => a.helper_contract_address = Some("helper".into()),
                4 => a.next_transaction_nonce = Some(nat(&two256())),
                5 => a.deposit_native_fee = Some(nat(&two256())),
                6 => a.withdrawal_native_fee = Some(nat(&two256())),
                _ => a.last_scraped_block_number = Some(nat(&two256())),
            }
            return (a, false);
        }
        let c = self.conf.clone();
        let mut fee = c.ledger_fee.clone();
        if r.chance(25) {
            fee = BigUint::from(*r.pick(&[0u64, 1, 10_000, 3_000_000_000_000]));
            a.native_ledger_transfer_fee = Some(nat(&fee));
        }
        let floor = fee.clone().max(BigUint::from(1u8));
        if r.chance(35) || c.min_wd < floor {
            let m = match r.below(9) {
                0 => floor.clone(),
                8 => (BigUint::from(1u8) << 251u32) + wild(r.next(), 200),
                1 => BigUint::from(1u8) << 70u32,
                2 => &floor + (BigUint::from(1u8) << 130u32),
                _ => &floor + wild(r.next(), 50),
            };
            a.native_minimum_withdrawal_amount = Some(nat(&m));
        }
        if r.chance(35) || (c.wd_fee != zero() && c.wd_fee < fee) {
            let m = match r.below(3) {
                0 => zero(),
                1 => &fee * 2u32 + 1u32,
                _ if r.chance(6) => (BigUint::from(1u8) << 252u32) + 1u32,
                _ => &fee + wild(r.next(), 45),
            };
            a.withdrawal_native_fee = Some(nat(&m));
        }
        if r.chance(35) {
            let m = match r.below(3) {
                0 => zero(),
                _ if r.chance(6) => (BigUint::from(1u8) << 253u32) + wild(r.next(), 250),
                _ => wild(r.next(), 42),
            };
            a.deposit_native_fee = Some(nat(&m));
        }
        if r.chance(30) {
            a.min_max_priority_fee_per_gas = Some(Nat::from(*r.pick(&[0u64, 1, 1_000_000_000, 2_500_000_000, 1_999_999_999])));
        }
        if r.chance(20) {
            let h = helper(self.plan.seed, 1 + r.below(2));
            a.helper_contract_address = Some(if r.chance(50) { hex0x(&h) } else { checksum(&h) });
        }
        if r.chance(25) {
            let deep = DEPTH[c.net] > 0;
            let t = if deep { r.below(3) } else { 1 + r.below(2) };
            a.block_height = Some(tag_of(t as u8));
        }
        if r.chance(15) {
            // With nothing under way, transactions sent by other means may have used up some nonces.
            let idle = self.wds.values().all(|w| w.txs.is_empty() || w.fin.is_some());
            let k = if idle { *r.pick(&[0u64, 1, 3, 250]) } else { 0 };
            a.next_transaction_nonce = Some(Nat::from(self.next_nonce + k));
        }
        if r.chance(20) {
            let k = *r.pick(&[0u64, 0, 1, 5, 30]);
            a.last_scraped_block_number = Some(Nat::from(self.last_scraped + k));
        }
        if r.chance(15) {
            a.evm_rpc_id = Some(if r.chance(50) { cid(7) } else { Principal::from_text(EVM_RPC).unwrap() });
        }
        (a, true)
    }

    fn adopt(&mut self, a: &UpgradeArg) {
        if let Some(x) = &a.native_ledger_transfer_fee {
            self.conf.ledger_fee = x.0.clone();
            self.ledgers[0].fee = x.0.clone();
        }
        if let Some(x) = &a.native_minimum_withdrawal_amount {
            self.conf.min_wd = x.0.clone();
        }
        if let Some(x) = &a.withdrawal_native_fee {
            self.conf.wd_fee = x.0.clone();
        }
        if let Some(x) = &a.deposit_native_fee {
            self.conf.dep_fee = x.0.clone();
        }
        if let Some(x) = &a.min_max_priority_fee_per_gas {
            self.conf.prio_min = x.0.clone();
        }
        if let Some(x) = &a.helper_contract_address {
            self.conf.helper = parse_addr(x).unwrap();
            self.helper_set = true;
        }
        if let Some(x) = &a.block_height {
            let t = (0..3u8).find(|t| tag_of(*t) == *x).unwrap();
            self.conf.tag = t;
            self.tags.push(t);
        }
        if let Some(x) = &a.last_scraped_block_number {
            let n = nat64(x);
            if n > self.last_scraped {
                self.excused.push((self.last_scraped + 1, n));
            }
            self.last_scraped = n;
        }
        if let Some(x) = &a.evm_rpc_id {
            self.conf.evm_rpc = *x;
        }
        if let Some(x) = &a.next_transaction_nonce {
            let n = nat64(x);
            self.chain.nonce += n - self.next_nonce;
            self.next_nonce = n;
        }
    }

    pub fn do_upgrade(&mut self, spec: u64) {
        let Some(before) = self.snap() else { return };
        self.tick();
        let (ua, valid) = self.upgrade_arg(spec);
        let admin = self.admin;
        let mut ok = valid;
        let mut given = Some(ua.clone());
        let arg = match spec % 10 {
            0 | 1 => {
                given = None;
                Encode!(&None::<MinterArg>).unwrap()
            }
            2 => {
                given = None;
                Encode!().unwrap()
            }
            9 if spec / 10 % 3 == 0 => {
                ok = false;
                Encode!(&Some(MinterArg::InitArg(self.init_arg()))).unwrap()
            }
            _ => Encode!(&Some(MinterArg::UpgradeArg(ua))).unwrap(),
        };
        self.up_arg = given.clone();
        self.hit("P09");
        self.hit("P20");
        self.cur = Cur { label: "upgrade".into(), ..Cur::default() };
        self.note(&format!("upgrade {:?} {:?}", ok, given));
        let fx = self.rep.upgrade(admin.as_slice(), &arg);
        self.rep.exec().dirty = true;
        if !ok {
            self.stats.borrow_mut().refused += 1;
            if fx.trapped.is_none() {
                self.fail(&["P20", "P09"], format!("an invalid upgrade {:?} was accepted", given));
                return;
            }
            self.up_arg = None;
            self.sync_events();
            let Some(after) = self.snap() else { return };
            if after != before {
                self.fail(&["P09", "P20"], format!("a refused upgrade changed something: {:?}", differences(&before, &after)));
            }
            return;
        }
        if let Some(m) = fx.trapped {
            self.fail(&["P09"], format!("the upgrade {:?} failed: {}", given, m));
            return;
        }
        self.stats.borrow_mut().upgrades += 1;
        self.upgrades_done += 1;
        let n0 = self.events.len();
        self.sync_events();
        let want = 1 + given.is_some() as usize;
        if self.events.len() - n0 != want {
            self.fail(&["P09", "P21"], format!("an upgrade wrote {} log entries instead of {}", self.events.len() - n0, want));
        }
        if let Some(a) = &given {
            self.adopt(a);
        }
        self.est = None;
        self.observed = None;
        self.obs_time = None;
        self.epoch = self.now;
        self.epoch_scrapes = 0;
        self.epoch_requests = 0;
        self.mint_again = None;
        let Some(mut after) = self.snap() else { return };
        // What the argument changed on purpose is judged by check_config.
        let b = &before.info;
        after.info.minimum_withdrawal_amount = b.minimum_withdrawal_amount.clone();
        after.info.deposit_native_fee = b.deposit_native_fee.clone();
        after.info.withdrawal_native_fee = b.withdrawal_native_fee.clone();
        after.info.block_height = b.block_height;
        after.info.helper_smart_contract_address = b.helper_smart_contract_address.clone();
        after.contract = before.contract.clone();
        if given.as_ref().map_or(false, |a| a.last_scraped_block_number.is_some()) {
            after.info.last_scraped_block_number = b.last_scraped_block_number.clone();
        }
        if let Some(d) = differences(&before, &after) {
            let named = after.info.last_scraped_block_number != b.last_scraped_block_number;
            self.fail(if named { &["P09", "P20"] } else { &["P09"] }, format!("an upgrade with {:?}: {}", given, d));
        }
        self.check_config();
        self.check();
    }

    // ---- queries by users
    pub fn queries(&mut self, n: u64) {
        if self.rep.status == Status::Empty {
            return;
        }
        self.note("queries");
        let seed = self.plan.seed;
        // The price.
        let mut asks: Vec<(Option<Principal>, Option<u64>)> = vec![(None, Some(21_000)), (Some(self.ledgers[0].id), Some(21_000)), (Some(cid(99)), None)];
        for t in &self.tokens {
            asks.push((Some(t.ledger), t.registered.map(|_| 65_000)));
        }
        for (who, gas) in asks {
            self.hit("P16");
            let arg = Encode!(&who.map(|erc20_ledger_id| Eip1559TransactionPriceArg { erc20_ledger_id })).unwrap();
            let got = self.query::<Eip1559TransactionPrice>("eip_1559_transaction_price", arg);
            let want = match (&self.est, gas) {
                (Some(e), Some(g)) => Some(Eip1559TransactionPrice {
                    gas_limit: Nat::from(g),
                    max_fee_per_gas: nat(&e.max_fee()),
                    max_priority_fee_per_gas: nat(&e.prio),
                    max_transaction_fee: nat(&(e.max_fee() * g)),
                    timestamp: Some(e.t),
                }),
                _ => None,
            };
            if got.as_ref().ok() != want.as_ref() {
                self.fail(&["P16"], format!("the price for {:?} is {:?} instead of {:?}", who.map(|p| p.to_text()), got, want));
            }
        }
        // Searches.
        let ids: Vec<u64> = self.wds.keys().cloned().collect();
        let mut probe: Vec<u64> = ids.clone();
        probe.extend([0, 1, n, u64::MAX]);
        probe.extend(ids.iter().map(|i| i + 1));
        probe.extend(self.failed.keys().cloned());
        probe.sort();
        probe.dedup();
        for i in probe {
            let want = if self.wds.contains_key(&i) { vec![i] } else { vec![] };
            self.search(WithdrawalSearchParameter::ByWithdrawalId(i), want);
        }
        for k in 0..60u64 {
            let (_, Some(a)) = recipient(seed, k) else { continue };
            let want: Vec<u64> = self.wds.values().filter(|w| w.to == a).map(|w| w.id).collect();
            if want.is_empty() && k % 8 != n % 8 {
                continue;
            }
            let s = if k % 2 == 0 { hex0x(&a) } else { checksum(&a) };
            self.search(WithdrawalSearchParameter::ByRecipient(s), want);
        }
        for u in self.users.clone() {
            let want: Vec<u64> = self.wds.values().filter(|w| w.from == u).map(|w| w.id).collect();
            self.search(WithdrawalSearchParameter::BySenderAccount(Account { owner: u, subaccount: None }), want);
            self.search(WithdrawalSearchParameter::BySenderAccount(Account { owner: u, subaccount: Some(sub_of(seed, 2)) }), vec![]);
        }
        // The contract.
        self.hit("P20");
        let c = self.query::<String>("smart_contract_address", Encode!().unwrap());
        if self.helper_set && c.as_ref().ok() != Some(&checksum(&self.conf.helper)) {
            self.fail(&["P20"], format!("the helper contract is {:?} instead of {}", c, checksum(&self.conf.helper)));
        }
        // Pages of the log.
        let total = self.events.len() as u64;
        for j in 0..3 {
            let start = h3(seed, n, j) % (total + 3);
            let length = [0u64, 1, 7, 99, 100, 101, 2000, u64::MAX][(h3(seed, n, j + 10) % 8) as usize];
            let Some(r) = self.get_events(start, length) else { return };
            self.hit("P21");
            let a = start.min(total) as usize;
            let b = (start.saturating_add(length.min(100))).min(total) as usize;
            if r.total_event_count != total || r.events != self.events[a..b.max(a)] {
                self.fail(&["P21", "P09"], format!("get_events({}, {}) returned {} of {} entries that differ from the log", start, length, r.events.len(), r.total_event_count));
            }
        }
    }

    pub fn probe(&mut self, n: u64) {
        let mut ids: Vec<u64> = self.ids();
        ids.extend([0, n, u64::MAX]);
        for (j, id) in ids.into_iter().enumerate() {
            if (j as u64 + n) % 3 != 0 && j > 3 {
                continue;
            }
            let u = self.users[j % self.users.len()];
            let b = Encode!(&id).unwrap();
            self.ingress("retrieve_witdrawal_status", u, &b, UK::Other { name: format!("status:{}", id) });
        }
        self.queries(n);
    }
}

/// Keeps the unused-variant lint quiet about plans read from files.
pub fn describe(p: &Plan) -> String {
    format!("seed {} profile {} with {} actions and {} fault windows", p.seed, p.profile, p.acts.len(), p.faults.len())
}
