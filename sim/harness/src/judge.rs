//! Judges what the minter asks of its peers and what it answers its users.
use crate::chain::*;
use crate::ledger::*;
use crate::model::*;
use crate::plan::{Form, F};
use crate::replica::*;
use crate::rpc::*;
use crate::types::*;
use crate::util::*;
use crate::world::*;
use candid::{Decode, Principal};
use evm_rpc_types::{BlockTag, ConsensusStrategy, RpcApi};
use num_bigint::BigUint;

const ANKR: [&str; 10] = ["eth", "eth_sepolia", "arbitrum", "bsc", "bsc_testnet_chapel", "polygon", "optimism", "base", "avalanche", "fantom"];
const PUBLIC: [&str; 10] = [
    "ethereum-rpc",
    "ethereum-sepolia-rpc",
    "arbitrum-one-rpc",
    "bsc-rpc",
    "bsc-testnet-rpc",
    "polygon-bor-rpc",
    "optimism-rpc",
    "base-rpc",
    "avalanche-c-chain-rpc",
    "fantom-rpc",
];
const LLAMA: [Option<&str>; 10] = [Some("eth"), None, Some("arbitrum"), Some("binance"), None, Some("polygon"), Some("optimism"), Some("base"), None, None];
pub const FIRST_CYCLES: u128 = 30_000_000_000;

pub fn urls(net: usize) -> Vec<String> {
    let mut v = vec![format!("https://rpc.ankr.com/{}/sim-ankr-key", ANKR[net]), format!("https://{}.publicnode.com", PUBLIC[net])];
    if let Some(l) = LLAMA[net] {
        v.push(format!("https://{}.llamarpc.com/sim-llama-key", l));
    }
    v
}

fn zero() -> BigUint {
    BigUint::default()
}
pub fn two256() -> BigUint {
    BigUint::from(1u8) << 256u32
}

impl World<'_> {
    fn alive(&self) -> bool {
        self.cur.ctx.and_then(|c| self.ctxs.get(&c)).map_or(false, |c| !c.dead)
    }

    // ---- responses the minter got
    pub fn on_facts(&mut self) {
        if !self.alive() {
            return;
        }
        if let Some(o) = self.cur.op.map(|o| &self.ops[o]) {
            let deposit = matches!(&o.req, LReq::Transfer(a) if matches!(memo(&a.memo).map(|m| m.0), Some(0..=2)));
            if deposit && !matches!(o.res, Some(LRes::Ok(_))) {
                if let Some(x) = self.cur.ctx.and_then(|c| self.ctxs.get_mut(&c)) {
                    x.failed_mints += 1;
                }
            }
        }
        let flight = self.cur_flight.clone();
        let fee = flight.as_ref().map_or(false, |f| f.call.method == "eth_feeHistory");
        if let Some(Req::Receipt(h)) = flight.as_ref().and_then(|f| f.rpc.as_ref()).map(|r| &r.req) {
            let h = h32(h);
            let lost = match &self.cur.facts {
                Facts::Receipt { found, .. } => found.is_none(),
                Facts::TooFew(_) => flight.as_ref().map_or(true, |f| f.attempt >= 11),
                _ => true,
            };
            if let Some(x) = self.cur.ctx.and_then(|k| self.ctxs.get_mut(&k)) {
                x.asked.push(h);
                x.lost_receipt |= lost;
            }
        }
        match self.cur.facts.clone() {
            Facts::Block(n) => {
                self.observed = n.checked_sub(DEPTH[self.conf.net]);
                let head = self.observed;
                if let Some(x) = self.cur.ctx.and_then(|c| self.ctxs.get_mut(&c)) {
                    x.head = head;
                }
            }
            Facts::Logs { from, to, agreed, too_large, truth } => {
                let ctx = self.cur.ctx.and_then(|c| self.ctxs.get(&c)).cloned().unwrap();
                if let Some(x) = self.cur.ctx.and_then(|c| self.ctxs.get_mut(&c)) {
                    x.read = Some((from, to, agreed.is_some(), too_large));
                }
                if agreed.is_some() {
                    self.last_scraped = to;
                    self.scanned.push((from, to));
                    for i in truth {
                        let d = self.chain.deps[i].clone();
                        let supported = d.token == [0; 20]
                            || self.tokens.iter().any(|t| t.addr == d.token && t.registered.map_or(false, |r| r < ctx.start || r <= d.at));
                        if d.valid && d.contract == ctx.helper && supported {
                            self.deps.entry(d.key()).or_default().owed = true;
                        }
                    }
                } else if too_large > 1 && from == to {
                    self.last_scraped = to;
                    self.skipped.insert(to);
                }
            }
            Facts::Fee { base, mut rewards } => {
                rewards.sort();
                let mid = rewards.get(rewards.len() / 2).cloned().unwrap_or(0);
                let e = Est { t: self.now, base, prio: BigUint::from(mid).max(self.conf.prio_min.clone()) };
                self.est = Some(e.clone());
                if let Some(x) = self.cur.ctx.and_then(|c| self.ctxs.get_mut(&c)) {
                    x.fee_known = true;
                }
                self.ests.push(e);
                self.check_est();
            }
            Facts::TooFew(max) => {
                let f = flight.unwrap();
                self.hit("P15");
                let next: Vec<u64> = self
                    .flights
                    .iter()
                    .filter(|(_, g)| g.ctx == f.ctx && g.sent == self.now && g.rpc == f.rpc && g.call.method == f.call.method && g.attempt == 1)
                    .map(|(k, _)| *k)
                    .collect();
                if f.attempt >= 11 {
                    if next.iter().any(|k| self.flights[k].call.cycles != FIRST_CYCLES) {
                        self.fail(&["P15"], format!("{} was retried more than ten times", f.call.method));
                    }
                    if fee {
                        self.fee_failed();
                    }
                    return;
                }
                let want = (f.call.cycles * 2).max(max);
                match next.first() {
                    None => {
                        if self.msg_perform_fails == 0 {
                            self.fail(&["P15"], format!("{} with {} cycles was too poor (asked {}) and was not retried (attempt {})", f.call.method, f.call.cycles, max, f.attempt));
                        } else if fee {
                            self.fee_failed();
                        }
                    }
                    Some(k) => {
                        let got = self.flights[k].call.cycles;
                        if self.msg_perform_fails > 0 && got == FIRST_CYCLES && got != want {
                            // The retry itself could not be sent; the task started over.
                            if fee {
                                self.fee_failed();
                            }
                            return;
                        }
                        self.flights.get_mut(k).unwrap().attempt = f.attempt + 1;
                        if got != want || next.len() > 1 {
                            self.fail(&["P15"], format!("{} with {} cycles was too poor (asked {}) and was retried with {} instead of {}", f.call.method, f.call.cycles, max, got, want));
                        }
                    }
                }
            }
            Facts::Failed if fee => self.fee_failed(),
            Facts::Count { finalized, n, disputed } => {
                let c = self.cur.ctx.unwrap();
                let x = self.ctxs.get_mut(&c).unwrap();
                if !finalized {
                    x.latest = Some(n);
                    x.fee_known |= self.est.as_ref().map_or(false, |e| self.now < e.t + 30 * S);
                    x.disputed = disputed;
                    let start = x.start;
                    let below = self.below(n, start);
                    self.ctxs.get_mut(&c).unwrap().below = below;
                    return;
                }
                x.finalized = Some(n);
                x.due = self
                    .wds
                    .values()
                    .filter(|w| w.fin.is_none())
                    .flat_map(|w| w.signed.iter())
                    .filter(|t| t.nonce < BigUint::from(n))
                    .map(|t| (t.hash, t.nonce.clone()))
                    .collect();
            }
            _ => {}
        }
    }
    fn fee_failed(&mut self) {
        if let Some(u) = self.cur.user {
            self.ucalls[u as usize].fee_failed = true;
        }
    }

    pub fn on_perform_failed(&mut self, c: &OutCall) {
        if let Some(x) = self.cur.ctx.and_then(|k| self.ctxs.get_mut(&k)) {
            x.perform_failed = true;
        }
        match c.method.as_str() {
            "eth_getBlockByNumber" if self.cur.label.starts_with("run") || self.cur.label.ends_with("request_scraping_logs") => {
                let t = self.now;
                self.scrape_started(t);
            }
            "eth_feeHistory" => self.fee_failed(),
            "icrc1_transfer" => {
                if let Ok(a) = Decode!(&c.arg, TransferArg) {
                    if a.memo.is_none() {
                        self.fee_mint_tries += 1;
                    }
                }
            }
            _ => {}
        }
        if let Some(u) = self.cur.user {
            self.ucalls[u as usize].perform_failed += 1;
        }
    }

    // ---- requests the minter makes
    fn class(&mut self, ctx: u64, c: Class) {
        self.hit("P11");
        if let Origin::User(_) = self.ctxs[&ctx].origin {
            let p: &[&'static str] = if c == Class::Mint || c == Class::Reimburse { &["P11", "P08", "P13"] } else { &["P11", "P13"] };
            return self.fail(p, format!("a user call did the work of the {:?} task", c));
        }
        let other = self.ctxs.iter().any(|(k, x)| *k != ctx && x.class == c && !x.dead && (!x.split || self.flights.values().any(|f| f.ctx == *k)));
        if other {
            self.fail(&["P11"], format!("two {:?} tasks ran at the same time", c));
        }
        if self.ctxs[&ctx].class == Class::Other {
            let work = self.work(c);
            self.ctxs.get_mut(&ctx).unwrap().work = work;
        }
        self.ctxs.get_mut(&ctx).unwrap().class = c;
        self.active.insert(c, self.now);
        if c == Class::Mint {
            self.mint_again = None;
        }
    }

    /// One call context may carry several tasks, each spawned by another: their calls are told apart by their kind,
    /// and from its first call on each task has an entry of its own.
    fn split(&mut self, cb: u64) {
        let f = &self.flights[&cb];
        // A scrape that a request which is due one spawned itself is as much a task as one a timer runs.
        let user = match f.origin {
            Origin::User(u) => Some(matches!(self.ucalls[u as usize].kind, UK::Scrape { .. }) && self.ucalls[u as usize].scrape_expect.map_or(false, |w| w.split('|').any(|w| w == "ok"))),
            _ => None,
        };
        let c = match (&f.kind, f.rpc.as_ref().map(|r| &r.req), f.op.map(|o| &self.ops[o].req)) {
            (FK::Rpc, Some(Req::Block(_) | Req::Logs(_)), _) => Class::Scrape,
            (FK::Rpc, Some(Req::Count(_) | Req::Receipt(_) | Req::Send(_)), _) => Class::Retrieve,
            (FK::Mgmt, ..) if f.call.method == "sign_with_ecdsa" => Class::Retrieve,
            (FK::Ledger(_), _, Some(LReq::Transfer(a))) => match memo(&a.memo).map(|m| m.0) {
                Some(1) | Some(2) => Class::Reimburse,
                _ => Class::Mint,
            },
            _ => return,
        };
        let x = &self.ctxs[&f.ctx];
        if user.map_or(x.class == Class::Other || x.class == c, |due| !due || c != Class::Scrape) {
            return;
        }
        if user.is_some() {
            self.flights.get_mut(&cb).unwrap().origin = Origin::SelfCall(cb);
        }
        let f = &self.flights[&cb];
        let (base, op) = (context_of(f.ctx), f.op);
        let own = self.ctxs.get(&base).map_or(false, |x| x.class == c);
        let id = if own { base } else { base | (c as u64 + 1) << 56 };
        if let Some(x) = self.ctxs.get_mut(&base) {
            x.split = true;
        }
        let fresh = Ctx { split: true, ..Ctx::new(self.flights[&cb].origin.clone(), self.now, self.registered.len(), self.conf.helper) };
        self.ctxs.entry(id).or_insert(fresh);
        self.flights.get_mut(&cb).unwrap().ctx = id;
        if let Some(o) = op {
            self.ops[o].ctx = id;
        }
    }

    /// Every malformed deposit log of an answer that was used is on record as refused.
    pub fn check_refused(&mut self) {
        let Facts::Logs { agreed: Some(keys), .. } = self.cur.facts.clone() else { return };
        for k in keys {
            let Some(d) = self.dep(&k) else { continue };
            if d.valid || matches!(d.form, Form::Pending | Form::Unsupported | Form::OtherContract) {
                continue;
            }
            self.hit("P03");
            if !self.deps.get(&k).map_or(false, |s| s.invalid) {
                self.fail(&["P03", "P21"], format!("the malformed deposit {:?} ({:?}) was read and is not on record as refused", k, d.form));
            }
        }
    }

    /// What there is to mint or to reimburse.
    fn work(&self, c: Class) -> Vec<Job> {
        match c {
            Class::Mint => self.deps.iter().filter(|(_, d)| d.accepted && !d.recorded && !d.quarantined).map(|(k, _)| Job::Mint(*k)).collect(),
            Class::Reimburse => {
                let w = self.wds.values().filter(|w| w.reimb.is_none() && !w.quarantined && w.fin.as_ref().map_or(false, |r| r.status == TransactionStatus::Failure)).map(|w| w.id);
                let f = self.failed.iter().filter(|(_, f)| !f.recorded && !f.quarantined).map(|(id, _)| *id);
                w.chain(f).map(Job::Reimburse).collect()
            }
            _ => vec![],
        }
    }
    /// Every transaction with a final nonce is looked up.
    pub fn check_looked_up(&mut self, x: &Ctx) {
        let Some(n) = x.finalized else { return };
        self.hit("P05");
        if x.perform_failed || x.lost_receipt {
            return;
        }
        if let Some((_, m)) = x.due.iter().find(|(h, _)| !x.asked.contains(h)) {
            self.fail(&["P05", "P06"], format!("{} transactions are final, but the outcome of nonce {} is not asked for", n, m));
        }
    }
    /// A round that knows which transaction is to be mined next sends it.
    pub fn check_sent(&mut self, x: &Ctx) {
        let Some(n) = x.latest else { return };
        self.hit("P06");
        if x.perform_failed || x.final_above || !x.fee_known {
            return;
        }
        let first = self.wds.values().filter(|w| w.fin.is_none()).filter_map(|w| w.signed.last()).map(|t| nat64(&nat(&t.nonce))).filter(|k| *k >= n).min();
        if let Some(k) = first {
            if !x.sent.contains(&k) {
                let p: &[&'static str] = if x.disputed { &["P06", "P12"] } else { &["P06"] };
                self.fail(p, format!("the next transaction to be mined has nonce {}, but only {:?} were sent", k, x.sent));
            }
        }
    }
    /// What is pending at or above this nonce and cheaper than every price this round may have been told,
    /// up to the first that might be unable to pay more.
    fn below(&self, n: u64, start: u64) -> Vec<(u64, usize)> {
        let ests: Vec<&Est> = self.ests.iter().filter(|e| e.t + 30 * S >= start).collect();
        let mut pend: Vec<(&Tx, &Wd)> =
            self.wds.values().filter(|w| w.fin.is_none()).filter_map(|w| w.signed.last().map(|t| (t, w))).filter(|(t, _)| t.nonce >= BigUint::from(n)).collect();
        pend.sort_by(|a, b| a.0.nonce.cmp(&b.0.nonce));
        let mut v = vec![];
        for (t, w) in pend {
            let demanded = |e: &&Est| t.max_fee < &e.base + &e.prio || t.prio < e.prio;
            let (gas, allow) = if w.token.is_some() { (65_000u32, &w.budget) } else { (21_000, &w.amount) };
            let poor = |e: &&Est| {
                let prio = (&t.prio + (&t.prio + 9u32) / 10u32).max(e.prio.clone());
                t.max_fee.clone().max(&e.base + &prio) * gas > *allow
            };
            if ests.iter().any(|e| demanded(e) && poor(e)) {
                break;
            }
            if !ests.is_empty() && ests.iter().all(demanded) {
                v.push((w.id, w.txs.len()));
            }
        }
        v
    }
    /// A round that knows the price and what is pending raises what is below the price.
    pub fn check_raised(&mut self, x: &Ctx) {
        if x.latest.is_none() || !x.fee_known || x.perform_failed {
            return;
        }
        self.hit("P06");
        for (id, n) in &x.below {
            let Some(w) = self.wds.get(id) else { continue };
            if w.fin.is_none() && w.txs.len() <= *n {
                return self.fail(&["P06"], format!("the pending transaction of withdrawal {} is below the price and was not replaced", id));
            }
        }
    }
    /// A scrape goes on while nothing fails, and with a smaller range where one was too large.
    pub fn check_read(&mut self, x: &Ctx) {
        let Some((from, to, got, too_large)) = x.read else { return };
        self.hit("P19");
        if x.perform_failed || !self.helper_set {
            return;
        }
        if !got && too_large > 0 && from < to {
            self.fail(&["P19", "P02"], format!("blocks {}..{} had too many logs and were not asked for again in parts", from, to));
        } else if (got || too_large > 1) && x.head.map_or(false, |h| to < h) {
            self.fail(&["P19", "P02"], format!("a scrape stopped after block {} although {:?} are safe", to, x.head));
        }
    }
    /// What a ledger refuses does not hold up the rest.
    pub fn check_held_up(&mut self, x: &Ctx) {
        if x.perform_failed || x.work.is_empty() {
            return;
        }
        let left = self.work(x.class);
        let held = match x.class {
            Class::Mint => x.work.iter().find(|j| left.contains(j) && !x.tried.contains(j)),
            _ if x.tried.len() < x.work.len() => x.work.iter().rev().find(|j| left.contains(j)),
            _ => None,
        };
        self.hit(if x.class == Class::Mint { "P02" } else { "P06" });
        if let Some(j) = held {
            let p: &[&'static str] = if x.class == Class::Mint { &["P02"] } else { &["P06", "P05"] };
            self.fail(p, format!("{:?} was not tried after the ledger refused another", j));
        }
    }

    /// A scrape begins.
    fn scrape_started(&mut self, t: u64) {
        let again = self.scrape_starts.last() == Some(&t);
        self.obs_time = Some(t);
        self.scrape_starts.push(t);
        self.last_scrape_start = Some(t);
        if again {
            return;
        }
        self.epoch_scrapes += 1;
        self.hit("P17");
        let most = 2 + (self.now - self.epoch) / (600 * S) + self.epoch_requests;
        if self.epoch_scrapes > most {
            self.fail(&["P17"], format!("{} scrapes were started where the timer and {} accepted requests explain {}", self.epoch_scrapes, self.epoch_requests, most));
        }
    }

    pub fn on_call(&mut self, cb: u64) {
        if self.cur.trapped.is_some() || !self.flights.contains_key(&cb) {
            return;
        }
        self.split(cb);
        let f = self.flights[&cb].clone();
        match &f.kind {
            FK::Rpc => self.on_rpc(&f),
            FK::Ledger(li) => self.on_ledger_call(*li, &f),
            FK::Mgmt => {
                match f.call.method.as_str() {
                    "sign_with_ecdsa" => {
                        self.class(f.ctx, Class::Retrieve);
                        match Decode!(&f.call.arg, SignWithEcdsaArg) {
                            Ok(a) if a.key_id.name == self.plan.cfg.key && a.derivation_path.iter().all(|p| p.is_empty()) => {}
                            r => self.fail(&["P07", "P20"], format!("signature requested with {:?}", r)),
                        }
                    }
                    "ecdsa_public_key" => match Decode!(&f.call.arg, EcdsaPublicKeyArg) {
                        Ok(a) if a.key_id.name == self.plan.cfg.key && a.derivation_path.iter().all(|p| p.is_empty()) => {}
                        r => self.fail(&["P07", "P20"], format!("key requested with {:?}", r)),
                    },
                    _ => {}
                };
            }
            FK::Lsm => {
                self.lsm_calls += 1;
                self.hit("P20");
                let a = Decode!(&f.call.arg, InstalledNativeLedgerSuite);
                let ok = match &a {
                    Ok(a) => {
                        a.symbol == self.native_symbol() && a.ledger == self.ledgers[0].id && a.index == cid(11) && a.chain_id.0 == BigUint::from(CHAIN_IDS[self.conf.net])
                    }
                    Err(_) => false,
                };
                if !ok || self.lsm_calls > 1 || f.call.method != "add_native_ls" {
                    self.fail(&["P20"], format!("the ledger suite manager was told {} {:?} (call {})", f.call.method, a, self.lsm_calls));
                }
            }
            FK::SelfCall => {
                if f.call.method != TIMER_METHOD {
                    self.fail(&["P11"], format!("unexpected self-call of {}", f.call.method));
                }
            }
            FK::Other => self.fail(&["P20", "P13"], format!("unexpected call of {} on {}", f.call.method, Principal::from_slice(&f.call.callee))),
        }
    }

    fn on_rpc(&mut self, f: &Flight) {
        self.hit("P20");
        if f.call.callee != self.conf.evm_rpc.as_slice() {
            self.fail(&["P20", "P12"], format!("{} was sent to {}", f.call.method, Principal::from_slice(&f.call.callee)));
        }
        let Some(r) = &f.rpc else {
            return self.fail(&["P20"], format!("malformed {}", f.call.method));
        };
        let known = urls(self.conf.net);
        let mine: Vec<&RpcApi> = r.services.iter().collect();
        let uniq: std::collections::BTreeSet<&String> = mine.iter().map(|s| &s.url).collect();
        if r.chain_id != CHAIN_IDS[self.conf.net] || mine.iter().any(|s| !known.contains(&s.url)) || uniq.len() != mine.len() || mine.is_empty() {
            self.fail(&["P20", "P12"], format!("{} was sent to chain {} providers {:?}", f.call.method, r.chain_id, mine.iter().map(|s| s.url.clone()).collect::<Vec<_>>()));
        }
        if f.attempt == 1 {
            self.hit("P15");
            if f.call.cycles != FIRST_CYCLES {
                self.fail(&["P15"], format!("{} starts with {} cycles", f.call.method, f.call.cycles));
            }
        }
        let consensus = r.config.as_ref().and_then(|c| c.response_consensus.clone());
        if !matches!(consensus, None | Some(ConsensusStrategy::Equality)) {
            self.fail(&["P12"], format!("{} settles for {:?}", f.call.method, consensus));
        }
        let size = r.config.as_ref().and_then(|c| c.response_size_estimate);
        let logs = matches!(r.req, Req::Logs(_));
        if size != if logs { Some(2148) } else { None } {
            self.fail(&["P15", "P20"], format!("{} announces an answer of {:?} bytes", f.call.method, size));
        }
        // Whatever decides about money is asked of every provider.
        if matches!(r.req, Req::Logs(_) | Req::Receipt(_) | Req::Send(_)) && mine.len() != known.len() {
            self.fail(&["P12"], format!("{} asks only {:?}", f.call.method, mine.iter().map(|s| s.url.clone()).collect::<Vec<_>>()));
        }
        match &r.req {
            Req::Block(tag) => {
                let first = self.ctxs[&f.ctx].class == Class::Other;
                self.class(f.ctx, Class::Scrape);
                if first {
                    let t = self.ctxs[&f.ctx].start;
                    self.scrape_started(t);
                }
                if f.attempt == 1 {
                    let x = self.ctxs.get_mut(&f.ctx).unwrap();
                    x.headers += 1;
                    if x.headers > 3 {
                        self.fail(&["P17"], "one scrape asks for the head more than three times".into());
                    }
                }
                let want = [BlockTag::Latest, BlockTag::Safe, BlockTag::Finalized][self.conf.tag as usize].clone();
                if *tag != want {
                    self.fail(&["P18", "P20"], format!("the head is taken at {:?} instead of {:?}", tag, want));
                }
            }
            Req::Logs(q) => {
                self.class(f.ctx, Class::Scrape);
                self.hit("P18");
                self.hit("P19");
                if let Some(x) = self.ctxs.get_mut(&f.ctx) {
                    x.read = None;
                }
                let (from, to) = (self.number(&q.from_block, self.now), self.number(&q.to_block, self.now));
                let limit = self.chain.tag_head(self.conf.tag, self.now).saturating_sub(DEPTH[self.conf.net]);
                if to > limit {
                    self.fail(&["P18", "P19"], format!("logs are read up to block {} although only {} is deep enough", to, limit));
                }
                if from != self.last_scraped.wrapping_add(1) || to < from || to - from >= 1000 {
                    self.fail(&["P19", "P02"], format!("logs of blocks {}..{} are read after block {}", from, to, self.last_scraped));
                }
                if let Facts::Logs { from: f0, to: t0, agreed: None, too_large: 1.., .. } = self.cur.facts {
                    if f0 < t0 && from == f0 && to != f0 + (t0 - f0) / 2 {
                        self.fail(&["P19"], format!("blocks {}..{} had too many logs; blocks {}..{} are asked for next", f0, t0, from, to));
                    }
                }
                if let Facts::Logs { from: f0, to: t0, agreed: None, too_large: 0, .. } = self.cur.facts {
                    if from > t0 || (from == f0 && to < t0) {
                        self.fail(&["P19"], format!("blocks {}..{} failed, not for their size; blocks {}..{} are asked for next", f0, t0, from, to));
                    }
                }
                let a: Vec<[u8; 20]> = q.addresses.iter().map(|a| <[u8; 20]>::from(a.clone())).collect();
                let t0 = q.topics.as_ref().and_then(|t| t.first()).cloned().unwrap_or_default();
                if !self.helper_set || a != vec![self.ctxs[&f.ctx].helper] || t0.len() != 1 || <[u8; 32]>::from(t0[0].clone()) != deposit_topic() {
                    self.fail(&["P20", "P01", "P19"], format!("logs are read from {:?} with topics {:?}", a.iter().map(|x| hex0x(x)).collect::<Vec<_>>(), q.topics));
                }
                // Whatever the filter leaves out is never seen.
                if let Some(t1) = q.topics.as_ref().and_then(|t| t.get(1)).filter(|t| !t.is_empty()) {
                    let t1: Vec<[u8; 32]> = t1.iter().map(|x| <[u8; 32]>::from(x.clone())).collect();
                    let start = self.ctxs[&f.ctx].start;
                    let mut want = vec![[0u8; 20]];
                    want.extend(self.registered.iter().map(|k| &self.tokens[*k]).filter(|t| t.registered.map_or(false, |r| r < start)).map(|t| t.addr));
                    if let Some(w) = want.iter().find(|w| !t1.contains(&word(w))) {
                        self.fail(&["P19", "P02", "P13", "P20"], format!("the log filter leaves out token {}", hex0x(&w[..])));
                    }
                }
            }
            Req::Fee(q) => {
                self.hit("P16");
                self.hit("P11");
                if let Some(e) = &self.est {
                    if self.now < e.t + 30 * S && f.attempt == 1 {
                        let age = (self.now - e.t) / S;
                        self.fail(&["P16", "P11"], format!("the fee estimate is fetched again after {} s", age));
                    }
                }
                let n = self.flights.values().filter(|g| g.call.method == "eth_feeHistory" && self.ctxs.get(&g.ctx).map_or(false, |c| !c.dead)).count();
                if n > 1 {
                    self.fail(&["P11"], "two fee estimates are fetched at the same time".into());
                }
                if q.newest_block != BlockTag::Latest || nat64(q.block_count.as_ref()) != 5 || q.reward_percentiles != Some(vec![20]) {
                    self.fail(&["P16"], format!("the fee estimate is based on {:?}", q));
                }
                if let Some(u) = self.cur.user {
                    self.ucalls[u as usize].fee_calls += 1;
                }
            }
            Req::Count(q) => {
                self.class(f.ctx, Class::Retrieve);
                let a = <[u8; 20]>::from(q.address.clone());
                if Some(a) != self.minter_addr {
                    self.fail(&["P20", "P07"], format!("the transaction count of {} is asked for", hex0x(&a)));
                }
            }
            Req::Receipt(h) => {
                self.class(f.ctx, Class::Retrieve);
                let h = h32(h);
                if !self.wds.values().any(|w| w.signed.iter().any(|t| t.hash == h)) {
                    self.fail(&["P07"], format!("a receipt of unknown transaction {} is asked for", hex0x(&h)));
                }
                let n = self.ctxs[&f.ctx].finalized;
                let early = self.wds.values().flat_map(|w| w.signed.iter()).any(|t| t.hash == h && n.map_or(true, |n| t.nonce >= BigUint::from(n)));
                if early {
                    self.fail(&["P18", "P12"], format!("the outcome of {} is asked for although only {:?} transactions are final", hex0x(&h), n));
                }
            }
            Req::Send(raw) => {
                self.class(f.ctx, Class::Retrieve);
                self.hit("P07");
                let b = unhex(raw).unwrap_or_default();
                if !self.known_raw.contains_key(&b) {
                    self.fail(&["P07", "P04"], "a transaction that was never recorded is sent".into());
                }
                if let Some(t) = self.wds.values().flat_map(|w| w.signed.iter()).find(|t| t.hash == keccak(&b)).map(|t| nat64(&nat(&t.nonce))) {
                    let x = self.ctxs.get_mut(&f.ctx).unwrap();
                    x.sent.push(t);
                    let n = x.latest;
                    if n.map_or(true, |n| t < n) {
                        self.fail(&["P07", "P12"], format!("nonce {} is sent although {:?} transactions are known to be mined", t, n));
                    }
                }
            }
        }
    }

    fn on_ledger_call(&mut self, li: usize, f: &Flight) {
        let Some(oi) = f.op else {
            return self.fail(&["P08", "P10"], format!("unexpected ledger call {}", f.call.method));
        };
        let me = self.me;
        let op = self.ops[oi].clone();
        let Origin::User(u) = f.origin.clone() else {
            match &op.req {
                LReq::Transfer(a) => {
                    let m = memo(&a.memo).map(|m| m.0);
                    if a.memo.is_none() {
                        self.fee_mint_tries += 1;
                    }
                    self.class(f.ctx, if matches!(m, Some(1) | Some(2)) { Class::Reimburse } else { Class::Mint });
                    let job = match memo(&a.memo) {
                        Some((0, v)) => match (v.get(1), v.get(2)) {
                            (Some(C::B(h)), Some(C::U(n))) if h.len() == 32 => Some(Job::Mint((<[u8; 32]>::try_from(h.as_slice()).unwrap(), nat64(&nat(n))))),
                            _ => None,
                        },
                        Some((1 | 2, _)) => Some(Job::Reimburse(0)),
                        _ => None,
                    };
                    self.ctxs.get_mut(&f.ctx).unwrap().tried.extend(job);
                }
                LReq::From(a) => self.fail(&["P08", "P13", "P10"], format!("a background task takes {} from {}", a.amount, a.from.owner)),
            }
            return;
        };
        let call = self.ucalls[u as usize].clone();
        self.hit("P08");
        self.hit("P13");
        let (to, amount) = match &call.kind {
            UK::Native { to, amount } => (to.clone(), amount.clone()),
            UK::Erc20 { to, amount, .. } => (to.clone(), amount.clone()),
            k => return self.fail(&["P08", "P13"], format!("{:?} moves tokens", k)),
        };
        let dest = parse_addr(&to).unwrap_or_default();
        if call.caller == Principal::anonymous() {
            self.fail(&["P13", "P08"], "an anonymous caller's withdrawal reached the ledger".into());
        }
        if call.contended {
            self.fail(&["P11"], "a caller has two withdrawals in progress".into());
        }
        let a = match &op.req {
            LReq::From(a) => a.clone(),
            LReq::Transfer(a) => {
                let sub = a.from_subaccount.unwrap_or([0; 32]);
                if sub != FEES_SUB || acc(&a.to) != (call.caller, [0; 32]) {
                    self.fail(&["P08", "P10"], format!("{} are sent to {} during a withdrawal", a.amount, a.to.owner));
                }
                return;
            }
        };
        let (from, dst) = (acc(&a.from), acc(&a.to));
        let caller = (call.caller, [0u8; 32]);
        if from == (me, FEES_SUB) && dst == caller {
            return; // a refund, judged with the answer
        }
        if from != caller {
            return self.fail(&["P08", "P13"], format!("a withdrawal by {} takes tokens from {}", call.caller, a.from.owner));
        }
        if dst == (me, FEES_SUB) {
            if li != 0 || &a.amount.0 + &self.conf.ledger_fee != self.conf.wd_fee {
                self.fail(&["P08", "P20"], format!("a withdrawal fee of {} is taken from ledger {} (configured {})", a.amount, li, self.conf.wd_fee));
            }
            return;
        }
        if dst != (me, [0; 32]) {
            return self.fail(&["P08", "P13"], format!("a withdrawal by {} sends tokens to {}", call.caller, a.to.owner));
        }
        // Burns.
        self.hit("P21");
        let m = memo(&a.memo);
        let addr = C::B(dest.to_vec());
        match (&call.kind, li) {
            (UK::Native { .. }, 0) => {
                let want = if amount >= self.conf.wd_fee { &amount - &self.conf.wd_fee } else { zero() };
                if a.amount.0 != want {
                    self.fail(&["P08", "P04", "P20"], format!("a withdrawal of {} burns {}", amount, a.amount));
                }
                if m != Some((0, vec![addr])) {
                    self.fail(&["P21"], format!("burn memo {:?} for a withdrawal to {}", m, to));
                }
            }
            (UK::Erc20 { ledger, .. }, 0) => {
                self.hit("P16");
                let ok = self.ests.iter().any(|e| e.t + 30 * S >= call.t && a.amount.0 == e.max_fee() * 65_000u32);
                if !ok {
                    self.fail(&["P16", "P08"], format!("a token withdrawal pays {} for gas, which no current estimate explains", a.amount));
                }
                let sym = self.tokens.iter().find(|t| t.ledger == *ledger).map(|t| t.symbol.clone()).unwrap_or_default();
                if m != Some((1, vec![C::T(sym), C::U(amount.clone()), addr])) {
                    self.fail(&["P21"], format!("gas burn memo {:?} for a withdrawal of {} to {}", m, amount, to));
                }
            }
            (UK::Erc20 { ledger, .. }, _) => {
                if self.ledgers[li].id != *ledger || a.amount.0 != amount {
                    self.fail(&["P08", "P04"], format!("a token withdrawal of {} burns {} on ledger {}", amount, a.amount, li));
                }
                let gas = self.ok_burn(&call, 0, &call.caller).map(|g| g.0);
                match gas {
                    None => self.fail(&["P08"], "tokens are burnt before the gas is paid".into()),
                    Some(g) => {
                        if m != Some((2, vec![C::U(BigUint::from(g)), addr])) {
                            self.fail(&["P21"], format!("burn memo {:?} for withdrawal {} to {}", m, g, to));
                        }
                    }
                }
            }
            _ => self.fail(&["P08"], format!("a native withdrawal burns on ledger {}", li)),
        }
    }

    // ---- answers to users
    pub fn on_answer(&mut self, u: u64, r: Response) {
        let call = self.ucalls[u as usize].clone();
        self.ucalls[u as usize].open = false;
        if self.verbose {
            let s = match &r {
                Response::Reply(b) => format!("reply {} bytes", b.len()),
                Response::Reject(c, m) => format!("reject {} {}", c, m),
            };
            eprintln!("             answer to {:?}: {}", call.kind, s);
        }
        match &call.kind {
            UK::Native { .. } => self.native_answer(&call, r),
            UK::Erc20 { .. } => self.erc20_answer(&call, r),
            UK::AddToken { arg, expect } => {
                self.hit("P13");
                let ok = matches!(r, Response::Reply(_));
                if ok != *expect {
                    self.fail(&["P13"], format!("registration of {:?} by {} was {}", arg, call.caller, if ok { "accepted" } else { "refused" }));
                }
                if ok && *expect && !self.tokens.iter().any(|t| t.ledger == arg.erc20_ledger_id && t.registered == Some(self.now)) {
                    self.fail(&["P13"], format!("registration of {:?} left no trace", arg));
                }
            }
            UK::Scrape { block } => {
                self.hit("P17");
                let got = match &r {
                    Response::Reject(..) => "trap",
                    Response::Reply(b) => match Decode!(b, Result<(), RequestScrapingError>) {
                        Ok(Ok(())) => "ok",
                        Ok(Err(RequestScrapingError::CalledTooManyTimes)) => "toomany",
                        Ok(Err(RequestScrapingError::InvalidBlockNumber)) => "invalid",
                        Ok(Err(RequestScrapingError::BlockAlreadyObserved)) => "observed",
                        Err(_) => "garbage",
                    },
                };
                let want = call.scrape_expect.unwrap_or("?");
                if !want.split('|').any(|w| w == got) && !(got == "trap" && self.cur.injected) {
                    self.fail(
                        &["P17"],
                        format!("scraping request for block {} was answered {} instead of {} (observed {:?}, {:?} s ago)", block, got, want, self.observed, self.obs_time.map(|t| (self.now - t) / S)),
                    );
                }
                if got == "ok" {
                    self.epoch_requests += 1;
                    // A scrape that is still running satisfies the request.
                    if !self.ctxs.values().any(|x| x.class == Class::Scrape && !x.dead) {
                        self.scrape_promises.push((self.now, 0));
                    }
                }
            }
            UK::Other { name } => {
                let name = name.clone();
                self.other_answer(&call, &name, r)
            }
        }
    }

    fn other_answer(&mut self, call: &UCall, name: &str, r: Response) {
        if let Some(id) = name.strip_prefix("status:") {
            let id: u64 = id.parse().unwrap();
            self.hit("P14");
            let got = match &r {
                Response::Reply(b) => Decode!(b, RetrieveWithdrawalStatus).map_err(|e| e.to_string()),
                Response::Reject(_, m) => Err(m.clone()),
            };
            let want = self.status_of(id);
            if got.as_ref().ok() != Some(&want) {
                self.fail(&["P14"], format!("status of withdrawal {} is {:?} instead of {:?}", id, got, want));
            }
            return;
        }
        match name {
            "icrc28_trusted_origins" => {
                if !matches!(r, Response::Reply(_)) {
                    self.fail(&["P20"], "the trusted origins are not answered".into());
                }
            }
            "minter_address" => {
                self.hit("P20");
                if let Response::Reply(b) = &r {
                    let s = Decode!(b, String).unwrap_or_default();
                    if Some(s.clone()) != self.minter_addr.map(|a| checksum(&a)) {
                        self.fail(&["P20"], format!("the minter says its address is {}", s));
                    }
                }
            }
            _ => {
                self.hit("P13");
                if matches!(r, Response::Reply(_)) {
                    self.fail(&["P13"], format!("{} called by {} succeeded", name, call.caller));
                }
            }
        }
    }

    /// What the caller lost on a ledger through this call (gains are negative).
    fn loss(&self, call: &UCall, li: usize) -> num_bigint::BigInt {
        let mut n = num_bigint::BigInt::from(0);
        let me = (call.caller, [0u8; 32]);
        for o in call.ops.iter().map(|o| &self.ops[*o]).filter(|o| o.li == li && matches!(o.res, Some(LRes::Ok(_)))) {
            match &o.req {
                LReq::From(a) => {
                    let amt = num_bigint::BigInt::from(a.amount.0.clone());
                    if acc(&a.from).0 == me.0 {
                        n += &amt;
                        if acc(&a.to) != (self.me, [0; 32]) {
                            n += num_bigint::BigInt::from(self.ledgers[li].fee.clone());
                        }
                    }
                    if acc(&a.to) == me {
                        n -= &amt;
                    }
                }
                LReq::Transfer(a) => {
                    if acc(&a.to) == me {
                        n -= num_bigint::BigInt::from(a.amount.0.clone());
                    }
                }
            }
        }
        n
    }
    fn is_refund(&self, o: &LOp) -> bool {
        match &o.req {
            LReq::From(a) => acc(&a.from) == (self.me, FEES_SUB),
            LReq::Transfer(_) => true,
        }
    }
    /// The first operation which failed, other than refunds.
    fn first_failure(&self, call: &UCall) -> Option<LOp> {
        call.ops.iter().map(|o| &self.ops[*o]).find(|o| !self.is_refund(o) && !matches!(o.res, Some(LRes::Ok(_)))).cloned()
    }
    /// A failed withdrawal may cost at most the fee's own two transfers.
    fn judge_loss(&mut self, call: &UCall, gas: &BigUint, what: &str) {
        let paid = call.ops.iter().map(|o| &self.ops[*o]).any(|o| matches!((&o.req, &o.res), (LReq::From(a), Some(LRes::Ok(_))) if acc(&a.to) == (self.me, FEES_SUB)));
        let excused = call.perform_failed > 0 || call.ops.iter().map(|o| &self.ops[*o]).any(|o| self.is_refund(o) && o.injected);
        let loss = self.loss(call, 0) - num_bigint::BigInt::from(gas.clone());
        let max = if !paid {
            zero()
        } else if excused {
            self.conf.wd_fee.clone()
        } else {
            (&self.conf.ledger_fee * 2u32).min(self.conf.wd_fee.clone())
        };
        if loss > num_bigint::BigInt::from(max.clone()) || loss < num_bigint::BigInt::from(0) {
            self.fail(&["P08"], format!("{} cost the caller {} (at most {} allowed)", what, loss, max));
        }
    }

    fn rejected(&mut self, call: &UCall, amount: &BigUint, m: &str) {
        let anon = call.caller == Principal::anonymous();
        let moved = call.ops.iter().any(|o| matches!(self.ops[*o].res, Some(LRes::Ok(_))));
        let allowed = anon || call.contended || call.full || *amount >= two256() || self.cur.injected;
        if moved {
            self.fail(&["P08"], format!("withdrawal {:?} was rejected ({}) after tokens were taken", call.kind, m));
        } else if !allowed {
            self.fail(&["P08", "P11"], format!("withdrawal {:?} was rejected: {}", call.kind, m));
        }
    }
    /// A refusal that the call's own arguments explain.
    fn bad_argument(&self, call: &UCall, to: &str, r: &Response) -> bool {
        let Response::Reply(b) = r else {
            return matches!(&call.kind, UK::Native { amount, .. } | UK::Erc20 { amount, .. } if amount.bits() > 256);
        };
        let bad_to = !parse_addr(to).map_or(false, |a| a != [0; 20]);
        match &call.kind {
            UK::Native { amount, .. } => match Decode!(b, Result<RetrieveNativeRequest, WithdrawalError>) {
                Ok(Err(WithdrawalError::InvalidDestination(_))) => bad_to,
                Ok(Err(WithdrawalError::AmountTooLow { min_withdrawal_amount: m })) => m.0 > *amount && m.0 <= self.least_withdrawal(),
                _ => false,
            },
            UK::Erc20 { ledger, .. } => match Decode!(b, Result<RetrieveErc20Request, WithdrawErc20Error>) {
                Ok(Err(WithdrawErc20Error::InvalidDestination(_))) => bad_to,
                Ok(Err(WithdrawErc20Error::TokenNotSupported { .. })) => !self.registered.iter().any(|k| self.tokens[*k].ledger == *ledger),
                _ => false,
            },
            _ => false,
        }
    }
    fn least_withdrawal(&self) -> BigUint {
        (&self.conf.wd_fee + self.conf.ledger_fee.clone().max(BigUint::from(1u8))).max(self.conf.min_wd.clone())
    }
    /// Things that must be refused before anything else.
    fn must_refuse(&mut self, call: &UCall, to: &str, r: &Response) -> bool {
        if call.caller == Principal::anonymous() {
            self.hit("P13");
            if matches!(r, Response::Reply(_)) {
                self.fail(&["P13"], format!("an anonymous caller got an answer to {:?}", call.kind));
            }
            return true;
        }
        // Which of several reasons to refuse a call comes first is not fixed.
        let refused = call.ops.is_empty() && self.bad_argument(call, to, r);
        if call.contended {
            self.hit("P11");
            if matches!(r, Response::Reply(_)) && !refused {
                self.fail(&["P11"], format!("a second concurrent withdrawal was admitted: {:?}", call.kind));
            }
            return matches!(r, Response::Reply(_));
        }
        if call.full {
            self.hit("P11");
            if matches!(r, Response::Reply(_)) && !refused {
                self.fail(&["P11"], format!("a withdrawal was admitted on top of a hundred others: {:?}", call.kind));
            }
            return matches!(r, Response::Reply(_));
        }
        let valid = parse_addr(to).map_or(false, |a| a != [0; 20]);
        if !valid {
            self.hit("P13");
            if !refused {
                self.fail(&["P13", "P08"], format!("withdrawal to {:?} was not refused as an invalid destination", to));
            }
            return true;
        }
        false
    }

    fn native_answer(&mut self, call: &UCall, r: Response) {
        self.hit("P08");
        let UK::Native { amount, to } = call.kind.clone() else { return };
        if self.must_refuse(call, &to, &r) {
            return;
        }
        let b = match r {
            Response::Reject(_, m) => return self.rejected(call, &amount, &m),
            Response::Reply(b) => b,
        };
        let Ok(res) = Decode!(&b, Result<RetrieveNativeRequest, WithdrawalError>) else {
            return self.fail(&["P08"], "unintelligible answer to a withdrawal".into());
        };
        let fail = self.first_failure(call);
        let what = format!("withdrawal of {} answered {:?}", amount, res);
        match res {
            Ok(q) => {
                let id = nat64(&q.block_index);
                let loss = self.loss(call, 0);
                let rec = self.wds.get(&id).map_or(false, |w| w.from == call.caller && w.token.is_none()) && !call.events.is_empty();
                if loss != num_bigint::BigInt::from(amount.clone()) || !rec || self.ok_burn(call, 0, &call.caller).map(|x| x.0) != Some(id) {
                    self.fail(&["P08", "P04"], format!("{} but the caller lost {} (recorded: {})", what, loss, rec));
                }
                if amount < self.conf.min_wd {
                    self.fail(&["P08", "P20", "P13"], format!("{} although the minimum is {}", what, self.conf.min_wd));
                }
            }
            Err(e) => {
                let burnt = self.ok_burn(call, 0, &call.caller).is_some();
                if burnt {
                    self.fail(&["P08"], format!("{} after a burn", what));
                }
                self.judge_loss(call, &zero(), &what);
                use TransferFromError as T;
                let ok = match (&e, &fail) {
                    (WithdrawalError::InvalidDestination(_), _) => false,
                    (WithdrawalError::AmountTooLow { min_withdrawal_amount: m }, None) => {
                        m.0 > amount && m.0 >= self.conf.min_wd && m.0 <= self.least_withdrawal() && call.ops.is_empty()
                    }
                    (WithdrawalError::AmountTooLow { min_withdrawal_amount: m }, Some(LOp { res: Some(LRes::Err(T::BadBurn { .. })), .. })) => m.0 > amount,
                    (WithdrawalError::InsufficientFunds { balance }, Some(LOp { res: Some(LRes::Err(T::InsufficientFunds { balance: b })), .. })) => balance == b,
                    (WithdrawalError::InsufficientAllowance { allowance }, Some(LOp { res: Some(LRes::Err(T::InsufficientAllowance { allowance: b })), .. })) => allowance == b,
                    (WithdrawalError::TemporarilyUnavailable(_), Some(LOp { res: Some(LRes::Reject(_)), .. }))
                    | (WithdrawalError::TemporarilyUnavailable(_), Some(LOp { res: Some(LRes::Err(T::TemporarilyUnavailable)), .. }))
                    | (WithdrawalError::TemporarilyUnavailable(_), Some(LOp { res: Some(LRes::Err(T::GenericError { .. })), .. })) => true,
                    (WithdrawalError::TemporarilyUnavailable(_), None) => call.perform_failed > 0,
                    _ => false,
                };
                if !ok {
                    self.fail(&["P08"], format!("{} although the ledger said {:?}", what, fail.map(|f| f.res)));
                }
            }
        }
    }

    fn erc20_answer(&mut self, call: &UCall, r: Response) {
        self.hit("P08");
        let UK::Erc20 { ledger, amount, to } = call.kind.clone() else { return };
        if self.must_refuse(call, &to, &r) {
            return;
        }
        let b = match r {
            Response::Reject(_, m) => return self.rejected(call, &amount, &m),
            Response::Reply(b) => b,
        };
        let Ok(res) = Decode!(&b, Result<RetrieveErc20Request, WithdrawErc20Error>) else {
            return self.fail(&["P08"], "unintelligible answer to a token withdrawal".into());
        };
        let what = format!("withdrawal of {} of token {} answered {:?}", amount, ledger, res);
        let reg = self.tokens.iter().position(|t| t.ledger == ledger && t.registered.map_or(false, |r| r <= call.t));
        let Some(k) = reg else {
            self.hit("P13");
            match &res {
                Err(WithdrawErc20Error::TokenNotSupported { supported_tokens }) => {
                    let mut got: Vec<_> = supported_tokens.iter().map(|t| (t.erc20_token_symbol.clone(), parse_addr(&t.erc20_contract_address), t.ledger_canister_id)).collect();
                    let mut want: Vec<_> = self.registered.iter().map(|k| (self.tokens[*k].symbol.clone(), Some(self.tokens[*k].addr), self.tokens[*k].ledger)).collect();
                    got.sort();
                    want.sort();
                    if got != want || !call.ops.is_empty() {
                        self.fail(&["P13"], format!("{} while {:?} are supported", what, want));
                    }
                }
                _ => self.fail(&["P13", "P08"], format!("{} although the token is not registered", what)),
            }
            return;
        };
        let t = self.tokens[k].clone();
        let li = t.li;
        let gas = self.ok_burn(call, 0, &call.caller);
        let burn = self.ok_burn(call, li, &call.caller);
        let failure = self.first_failure(call);
        let native = (self.native_symbol(), self.ledgers[0].id);
        use num_bigint::BigInt;
        match &res {
            Ok(q) => {
                let (id, bi) = (nat64(&q.native_block_index), nat64(&q.erc20_block_index));
                let rec = self.wds.get(&id).map_or(false, |w| w.from == call.caller && w.token == Some(k) && w.burn == bi) && !call.events.is_empty();
                let g = gas.as_ref().map(|g| g.1.clone()).unwrap_or_default();
                let l0 = self.loss(call, 0);
                let l1 = self.loss(call, li);
                if !rec || gas.as_ref().map(|g| g.0) != Some(id) || burn.as_ref().map(|g| g.0) != Some(bi) || l0 != BigInt::from(&g + &self.conf.wd_fee) || l1 != BigInt::from(amount.clone()) {
                    self.fail(&["P08", "P04"], format!("{} but the caller lost {} and {} (recorded: {})", what, l0, l1, rec));
                }
            }
            Err(e) => {
                if burn.is_some() {
                    self.fail(&["P08"], format!("{} after the tokens were burnt", what));
                }
                let g = gas.as_ref().map(|g| g.1.clone()).unwrap_or_default();
                self.judge_loss(call, &g, &what);
                if let Some((id, paid)) = &gas {
                    let owed = self.failed_amount(call, paid);
                    let rec = self.failed.get(id).map(|f| f.amount.clone()).unwrap_or_default();
                    if rec != owed {
                        self.fail(&["P08", "P05"], format!("{}: {} of the {} paid for gas will be returned instead of {}", what, rec, paid, owed));
                    }
                }
                let step = match (&failure, call.perform_failed > 0) {
                    (Some(o), _) if o.li == 0 && matches!(&o.req, LReq::From(a) if acc(&a.to) == (self.me, FEES_SUB)) => "fee",
                    (Some(o), _) if o.li == 0 => "gas",
                    (Some(_), _) => "token",
                    (None, true) => "any",
                    (None, false) => "none",
                };
                let got = match e {
                    WithdrawErc20Error::NativeFeeTransferError { .. } => "fee",
                    WithdrawErc20Error::NativeLedgerError { .. } => "gas",
                    WithdrawErc20Error::Erc20LedgerError { .. } => "token",
                    WithdrawErc20Error::TemporarilyUnavailable(_) => "none",
                    _ => "bad",
                };
                if got == "bad" || (step != got && !(step == "any" && got != "bad")) {
                    self.fail(&["P08"], format!("{} although the failure was {} ({:?})", what, step, failure.as_ref().map(|f| f.res.clone())));
                    return;
                }
                match e {
                    WithdrawErc20Error::TemporarilyUnavailable(_) => {
                        if !call.ops.is_empty() || !(call.fee_failed || call.fee_busy || call.perform_failed > 0) {
                            self.fail(&["P08", "P16"], format!("{} without a reason", what));
                        }
                    }
                    WithdrawErc20Error::NativeFeeTransferError { error } => {
                        let fee = if self.conf.wd_fee >= self.conf.ledger_fee { &self.conf.wd_fee - &self.conf.ledger_fee } else { zero() };
                        let e2 = match error {
                            FeeError::InsufficientFunds { balance, failed_transfer_amount, token_symbol, ledger_id } => Some((0, balance.clone(), failed_transfer_amount.clone(), token_symbol.clone(), *ledger_id)),
                            FeeError::AmountTooLow { minimum_transfer_amount, failed_transfer_amount, token_symbol, ledger_id } => {
                                Some((1, minimum_transfer_amount.clone(), failed_transfer_amount.clone(), token_symbol.clone(), *ledger_id))
                            }
                            FeeError::InsufficientAllowance { allowance, failed_transfer_amount, token_symbol, ledger_id } => {
                                Some((2, allowance.clone(), failed_transfer_amount.clone(), token_symbol.clone(), *ledger_id))
                            }
                            FeeError::TemporarilyUnavailable(_) => None,
                        };
                        self.ledger_error(e2, failure.and_then(|f| f.res), fee, native, &what);
                    }
                    WithdrawErc20Error::NativeLedgerError { error } => {
                        let amt = failure.as_ref().map_or(zero(), |f| if let LReq::From(a) = &f.req { a.amount.0.clone() } else { zero() });
                        self.ledger_error(flat(error), failure.and_then(|f| f.res), amt, native, &what);
                    }
                    WithdrawErc20Error::Erc20LedgerError { native_block_index, error } => {
                        if gas.as_ref().map(|g| g.0) != Some(nat64(native_block_index)) {
                            self.fail(&["P08"], format!("{} names another gas payment", what));
                        }
                        self.ledger_error(flat(error), failure.and_then(|f| f.res), amount, (t.symbol, t.ledger), &what);
                    }
                    _ => {}
                }
            }
        }
    }

    fn ledger_error(&mut self, got: Option<(u8, candid::Nat, candid::Nat, String, Principal)>, res: Option<LRes>, amount: BigUint, token: (String, Principal), what: &str) {
        use TransferFromError as T;
        let want = match &res {
            Some(LRes::Err(T::InsufficientFunds { balance })) => Some((0u8, balance.clone())),
            Some(LRes::Err(T::BadBurn { min_burn_amount })) => Some((1, min_burn_amount.clone())),
            Some(LRes::Err(T::InsufficientAllowance { allowance })) => Some((2, allowance.clone())),
            _ => None,
        };
        let ok = match (&got, &want) {
            (None, None) => true,
            (Some(g), Some(w)) => g.0 == w.0 && g.1 == w.1 && g.2 .0 == amount && g.3 == token.0 && g.4 == token.1,
            _ => false,
        };
        if !ok {
            self.fail(&["P08"], format!("{} although the ledger said {:?} for {}", what, res, amount));
        }
    }

    // ---- scraping requests
    pub fn expect_scrape(&mut self, block: &BigUint) -> &'static str {
        let (Some(o), Some(t)) = (self.observed, self.obs_time) else {
            return "trap";
        };
        if *block >= two256() {
            return "invalid";
        }
        let seen = *block <= BigUint::from(o);
        let soon = self.now < t + 60 * S;
        match (seen, soon) {
            (true, true) => "observed|toomany",
            (true, false) => "observed",
            (false, true) => "toomany",
            _ => "ok",
        }
    }
    /// Accepted requests lead to a scrape soon, unless something was wrong around that time.
    pub fn check_promises(&mut self) {
        let due: Vec<(u64, u64)> = self.scrape_promises.iter().filter(|p| self.now > p.0 + 200 * S).cloned().collect();
        self.scrape_promises.retain(|p| self.now <= p.0 + 200 * S);
        for (t, _) in due {
            let (a, b) = ((t - T0) / S, (t - T0) / S + 130);
            let disturbed = self.plan.faults.iter().any(|f| f.from_s <= b && f.to_s + 5 >= a) || self.stops.iter().any(|s| *s + 60 * S >= t && *s <= t + 130 * S);
            if disturbed {
                continue;
            }
            self.hit("P17");
            let started = self.scrape_starts.iter().any(|s| *s >= t && *s <= t + 100 * S);
            if !started {
                self.fail(&["P17"], format!("the scraping request accepted at {} s was not carried out", a));
            }
        }
    }
    /// Failed mints are tried again soon, unless something was wrong around that time.
    pub fn check_mint_retry(&mut self) {
        let Some(t) = self.mint_again else { return };
        if self.now <= t + 240 * S {
            return;
        }
        self.mint_again = None;
        let (a, b) = ((t - T0) / S, (self.now - T0) / S);
        use F::*;
        let disturbed = self.plan.faults.iter().any(|f| matches!(f.kind, Stall | TimerDelay | Trap | TrapMint | PerformFail | LowCycles | Reorder) && f.from_s <= b && f.to_s + 5 >= a)
            || self.stops.iter().any(|s| *s + 60 * S >= t);
        if disturbed {
            return;
        }
        self.hit("P02");
        self.fail(&["P02"], format!("the mint that failed at {} s was not tried again", a));
    }
    pub fn on_injected_trap(&mut self) {
        *self.stats.borrow_mut().faults.entry(format!("{:?}Taken", F::Trap)).or_default() += 1;
    }
}

fn flat(e: &LedgerError) -> Option<(u8, candid::Nat, candid::Nat, String, Principal)> {
    match e {
        LedgerError::InsufficientFunds { balance, failed_burn_amount, token_symbol, ledger_id } => Some((0, balance.clone(), failed_burn_amount.clone(), token_symbol.clone(), *ledger_id)),
        LedgerError::AmountTooLow { minimum_burn_amount, failed_burn_amount, token_symbol, ledger_id } => {
            Some((1, minimum_burn_amount.clone(), failed_burn_amount.clone(), token_symbol.clone(), *ledger_id))
        }
        LedgerError::InsufficientAllowance { allowance, failed_burn_amount, token_symbol, ledger_id } => Some((2, allowance.clone(), failed_burn_amount.clone(), token_symbol.clone(), *ledger_id)),
        LedgerError::TemporarilyUnavailable(_) => None,
    }
}
