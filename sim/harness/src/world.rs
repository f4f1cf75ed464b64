//! The simulated world around the minter: one event queue, one clock, one seed.
use crate::chain::*;
use crate::ledger::*;
use crate::plan::*;
use crate::replica::*;
use crate::rpc::*;
use crate::types::*;
use crate::util::*;
use candid::{Decode, Encode, Nat, Principal};
use num_bigint::BigUint;
use serde_bytes::ByteBuf;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const S: u64 = 1_000_000_000;
pub const T0: u64 = 1_700_000_000 * S;
pub const FULL: u128 = 10_000_000_000_000_000;
pub const TIMER_METHOD: &str = "<ic-cdk internal> timer_executor";
pub const EVM_RPC: &str = "sosge-5iaaa-aaaag-alcla-cai";
pub const FEES_SUB: [u8; 32] = {
    let mut s = [0u8; 32];
    s[30] = 0x0f;
    s[31] = 0xee;
    s
};

pub fn cid(n: u8) -> Principal {
    Principal::from_slice(&[0, 0, 0, 0, 1, n, 3, 9, 1, 1])
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub net: usize,
    pub tag: u8,
    pub helper: [u8; 20],
    pub min_wd: BigUint,
    pub ledger_fee: BigUint,
    pub dep_fee: BigUint,
    pub wd_fee: BigUint,
    pub prio_min: BigUint,
    pub nonce: u64,
    pub evm_rpc: Principal,
}

#[derive(Clone, Debug)]
pub struct TokenInfo {
    pub symbol: String,
    pub addr: [u8; 20],
    pub ledger: Principal,
    /// Index into the ledgers.
    pub li: usize,
    pub registered: Option<u64>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Act(usize),
    Reg(usize),
    Arrive(u64),
    Deliver(u64),
    SelfRun(u64),
    Timer(u64),
    Check,
    Start,
    /// An upgrade names the helper contract.
    Helper,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FK {
    Rpc,
    Ledger(usize),
    Mgmt,
    Lsm,
    SelfCall,
    Other,
}

#[derive(Clone, Debug)]
pub struct Flight {
    pub ctx: u64,
    pub origin: Origin,
    pub call: OutCall,
    pub kind: FK,
    pub sent: u64,
    pub ord: u64,
    pub rpc: Option<RpcReq>,
    pub op: Option<usize>,
    pub answer: Option<(Response, u128, Facts)>,
    /// Cycles escalation so far (attempt number of the same request).
    pub attempt: u32,
}

#[derive(Clone, Debug)]
pub enum LReq {
    Transfer(TransferArg),
    From(TransferFromArgs),
}
#[derive(Clone, Debug)]
pub enum LRes {
    Ok(u64),
    Err(TransferFromError),
    Reject(i32),
}
/// One operation the minter asked a ledger for.
#[derive(Clone, Debug)]
pub struct LOp {
    pub li: usize,
    pub ctx: u64,
    pub origin: Origin,
    pub req: LReq,
    pub res: Option<LRes>,
    pub sent: u64,
    pub seen: bool,
    pub injected: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    Scrape,
    Mint,
    Reimburse,
    Retrieve,
    Fee,
    Other,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub origin: Origin,
    pub start: u64,
    pub class: Class,
    pub dead: bool,
    /// The call context carries more than one task.
    pub split: bool,
    pub tokens_at_start: usize,
    pub helper: [u8; 20],
    /// Transaction counts this task was told, if any.
    pub latest: Option<u64>,
    pub finalized: Option<u64>,
    pub sent: Vec<u64>,
    pub perform_failed: bool,
    /// Block headers this task asked for.
    pub headers: u32,
    /// Mints or reimbursements this task saw fail.
    pub failed_mints: u32,
    /// What there was to mint or reimburse when it began, and what it tried.
    pub work: Vec<Job>,
    pub tried: Vec<Job>,
    /// The transaction count came from answers that differed.
    pub disputed: bool,
    /// The transactions that were final when the final count came in, those
    /// whose outcome was asked for, and whether an answer stayed out.
    pub due: Vec<([u8; 32], BigUint)>,
    pub asked: Vec<[u8; 32]>,
    pub lost_receipt: bool,
    /// Something became final that the latest count did not cover.
    pub final_above: bool,
    /// The fees are known to this task.
    pub fee_known: bool,
    /// The withdrawals whose pending transactions are below the price, with the number of their versions.
    pub below: Vec<(u64, usize)>,
    /// The head this scrape was told, and the range of logs it last got an answer for, with the number
    /// of providers that refused for its size.
    pub head: Option<u64>,
    pub read: Option<(u64, u64, bool, usize)>,
}
/// The call context a task runs in.
pub fn context_of(task: u64) -> u64 {
    task & ((1 << 56) - 1)
}
impl Ctx {
    pub fn new(origin: Origin, start: u64, tokens: usize, helper: [u8; 20]) -> Ctx {
        Ctx {
            origin,
            start,
            class: Class::Other,
            dead: false,
            split: false,
            tokens_at_start: tokens,
            helper,
            latest: None,
            finalized: None,
            sent: vec![],
            perform_failed: false,
            headers: 0,
            failed_mints: 0,
            work: vec![],
            tried: vec![],
            disputed: false,
            due: vec![],
            asked: vec![],
            lost_receipt: false,
            final_above: false,
            fee_known: false,
            below: vec![],
            head: None,
            read: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Job {
    Mint(Key),
    Reimburse(u64),
}

#[derive(Clone, Debug)]
pub enum UK {
    Native { amount: BigUint, to: String },
    Erc20 { ledger: Principal, amount: BigUint, to: String },
    Scrape { block: BigUint },
    AddToken { arg: AddErc20Token, expect: bool },
    Other { name: String },
}

#[derive(Clone, Debug)]
pub struct UCall {
    pub caller: Principal,
    pub kind: UK,
    pub t: u64,
    pub ops: Vec<usize>,
    pub fee_calls: u32,
    pub fee_failed: bool,
    pub open: bool,
    pub ctx: Option<u64>,
    /// Another withdrawal by the same caller was open when this one arrived.
    pub contended: bool,
    /// A hundred withdrawals were already being handled, or waiting for a transaction.
    pub full: bool,
    pub fee_busy: bool,
    pub est_fresh: bool,
    pub low_cycles: bool,
    pub rejected: Option<String>,
    pub events: Vec<usize>,
    pub scrape_expect: Option<&'static str>,
    /// A call this one tried to make could not even be sent.
    pub perform_failed: u32,
}

#[derive(Clone, Debug)]
pub struct Est {
    pub t: u64,
    pub base: BigUint,
    pub prio: BigUint,
}
impl Est {
    pub fn max_fee(&self) -> BigUint {
        &self.base * 2u32 + &self.prio
    }
}

/// What the executing message is about.
#[derive(Clone, Debug, Default)]
pub struct Cur {
    pub label: String,
    pub facts: Facts,
    pub user: Option<u64>,
    pub ctx: Option<u64>,
    pub cb: Option<u64>,
    pub op: Option<usize>,
    pub timer: bool,
    pub trapped: Option<String>,
    pub injected: bool,
}

#[derive(Clone, Debug, Default)]
pub struct DepState {
    pub accepted: bool,
    pub invalid: bool,
    pub quarantined: bool,
    pub minted: Vec<(usize, u64)>,
    pub recorded: bool,
    pub owed: bool,
}

#[derive(Clone, Debug)]
pub struct Wd {
    pub id: u64,
    /// None for the native token.
    pub token: Option<usize>,
    pub burn: u64,
    pub amount: BigUint,
    pub budget: BigUint,
    pub to: [u8; 20],
    pub from: Principal,
    pub accepted: u64,
    pub txs: Vec<UnsignedTransaction>,
    /// Signed transactions per version index.
    pub signed: Vec<Tx>,
    pub last_signed: bool,
    pub fin: Option<TransactionReceipt>,
    pub fin_tx: Option<Tx>,
    pub reimb: Option<(BigUint, u64)>,
    pub reimb_mint: Option<(usize, u64)>,
    pub quarantined: bool,
}

/// A withdrawal whose second burn failed: only a reimbursement.
#[derive(Clone, Debug)]
pub struct Failed {
    pub amount: BigUint,
    pub to: Principal,
    pub mint: Option<u64>,
    pub recorded: bool,
    pub quarantined: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub msg: String,
    pub at_s: u64,
}

#[derive(Default)]
pub struct PerformFaults {
    p: u64,
    salt: u64,
    n: u64,
    self_id: Vec<u8>,
    pub failed: Vec<OutCall>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub messages: u64,
    pub events: u64,
    pub deposits: u64,
    pub mints: u64,
    pub withdrawals: u64,
    pub finalized: u64,
    pub reimbursed: u64,
    pub replaced: u64,
    pub upgrades: u64,
    pub refused: u64,
    pub reorgs: u64,
    pub traps: u64,
    pub genuine_traps: u64,
    pub faults: BTreeMap<String, u64>,
    pub sim_s: u64,
    pub checks: BTreeMap<&'static str, u64>,
    pub trace_hash: u64,
    pub settled: bool,
}

pub struct World<'a> {
    pub rep: &'a mut Replica,
    pub plan: &'a Plan,
    pub now: u64,
    pub last_msg: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    pub chain: Chain,
    pub ledgers: Vec<Ledger>,
    pub tokens: Vec<TokenInfo>,
    /// Order of registration.
    pub registered: Vec<usize>,
    pub conf: Conf,
    pub me: Principal,
    pub lsm: Principal,
    pub admin: Principal,
    pub users: Vec<Principal>,
    pub flights: BTreeMap<u64, Flight>,
    pub ctxs: BTreeMap<u64, Ctx>,
    pub ops: Vec<LOp>,
    pub ucalls: Vec<UCall>,
    pub events: Vec<Event>,
    pub cur: Cur,
    pub dead_users: u64,
    arrive_last: BTreeMap<Vec<u8>, u64>,
    ords: BTreeMap<String, u64>,
    pf: Rc<RefCell<PerformFaults>>,
    low: bool,
    pending_stop: Option<Option<u64>>,
    pub violations: BTreeMap<&'static str, Violation>,
    pub stats: RefCell<Stats>,
    pub verbose: bool,
    pub edges: BTreeSet<u64>,
    prev_label: u64,
    pub edges_prev: u64,
    pub cur_flight: Option<Flight>,
    // chain side
    pub minter_addr: Option<[u8; 20]>,
    pub sends: u64,
    pub byz: u64,
    pub tags: Vec<u8>,
    // model
    pub deps: BTreeMap<Key, DepState>,
    pub last_scraped: u64,
    pub first_block: u64,
    pub scanned: Vec<(u64, u64)>,
    pub excused: Vec<(u64, u64)>,
    pub skipped: BTreeSet<u64>,
    pub size_failed: BTreeSet<u64>,
    pub observed: Option<u64>,
    /// The minter has been told its helper contract.
    pub helper_set: bool,
    pub obs_time: Option<u64>,
    pub est: Option<Est>,
    pub ests: Vec<Est>,
    pub wds: BTreeMap<u64, Wd>,
    pub failed: BTreeMap<u64, Failed>,
    pub next_nonce: u64,
    pub native_balance: BigUint,
    /// The operator had blocks read again.
    pub rescan: bool,
    pub fee_mints: u64,
    pub fee_mint_tries: u64,
    pub native_mints: u64,
    pub fee_due: u64,
    pub injected_traps: u64,
    pub trap_mint: u64,
    pub trap_other: u64,
    pub perform_fails: u64,
    pub lsm_calls: u64,
    pub last_scrape_start: Option<u64>,
    pub scrape_promises: Vec<(u64, u64)>,
    pub end: u64,
    done: (u64, u64),
    pub upgrades_done: u64,
    pub known_raw: BTreeMap<Vec<u8>, u64>,
    pub up_arg: Option<UpgradeArg>,
    pub bal20: BTreeMap<usize, BigUint>,
    pub scrape_starts: Vec<u64>,
    pub stops: Vec<u64>,
    pub msg_perform_fails: u32,
    pub dust: BTreeSet<Key>,
    /// When each kind of background work was last seen.
    pub active: BTreeMap<Class, u64>,
    /// Scrapes and accepted requests since the last installation or upgrade.
    pub epoch: u64,
    pub epoch_scrapes: u64,
    pub epoch_requests: u64,
    /// Mint tasks that ended with work left, and when.
    pub mint_again: Option<u64>,
}

pub fn user_principal(seed: u64, i: u64) -> Principal {
    let h = keccak(format!("user {} {}", seed, i).as_bytes());
    let len = [29usize, 10, 29, 1, 20, 29, 5][(h3(seed, 0x05e2, i) % 7) as usize];
    let mut b = h[..len].to_vec();
    match len {
        29 => {
            b[28] = 2;
            if h[30] % 3 == 0 {
                b[25] = 0;
                b[26] = 0;
                b[27] = 0;
                b[28] = 0;
            }
            if h[29] % 4 == 0 {
                b[0] = 0;
            }
        }
        1 => b[0] = 100 + i as u8,
        _ => {
            b[0] = i as u8;
        }
    }
    Principal::from_slice(&b)
}
pub fn sub_of(seed: u64, k: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    match k {
        0 => {}
        1 => s[31] = 1,
        2 => s = [0xff; 32],
        3 => s = keccak(format!("sub {}", seed).as_bytes()),
        _ => s[0] = 1,
    }
    s
}
pub fn recipient(seed: u64, k: u64) -> (String, Option<[u8; 20]>) {
    let h = keccak(format!("to {} {}", seed, if k < 60 { k } else { k % 40 }).as_bytes());
    let mut a = [0u8; 20];
    a.copy_from_slice(&h[..20]);
    if k % 9 == 2 {
        a[0] = 0;
    }
    if k == 3 {
        a = [0; 20];
        a[19] = 1;
    }
    if (40..60).contains(&k) {
        a[19] = a[19] % 51 * 5 + 4; // a contract
    }
    match k {
        32 => (hex::encode(a), None),
        33 => (hex0x(&a)[..40].to_string(), None),
        34 => (format!("{}0", hex0x(&a)), None),
        35 => (format!("0x{}zz", &hex::encode(a)[..38]), None),
        36 => ("0x0000000000000000000000000000000000000000".into(), None),
        37 => ("".into(), None),
        _ => {
            let s = match k % 3 {
                0 => hex0x(&a),
                1 => checksum(&a),
                _ => format!("0x{}", hex::encode_upper(a)),
            };
            (s, Some(a))
        }
    }
}

pub fn signing_key(name: &str, path: &[ByteBuf]) -> k256::ecdsa::SigningKey {
    let mut m = format!("key {}", name).into_bytes();
    for p in path {
        m.extend_from_slice(&(p.len() as u32).to_be_bytes());
        m.extend_from_slice(p);
    }
    k256::ecdsa::SigningKey::from_slice(&keccak(&m)).unwrap()
}
pub fn key_address(k: &k256::ecdsa::SigningKey) -> [u8; 20] {
    address_of(k.verifying_key().to_encoded_point(false).as_bytes())
}

pub fn tag_of(t: u8) -> CandidBlockTag {
    [CandidBlockTag::Latest, CandidBlockTag::Safe, CandidBlockTag::Finalized][t as usize]
}

pub fn run(rep: &mut Replica, plan: &Plan, verbose: bool) -> (Vec<Violation>, Stats, BTreeSet<u64>) {
    rep.reset();
    let mut w = World::new(rep, plan, verbose);
    if let Some(k) = plan.legacy {
        w.legacy(k);
    }
    w.boot();
    w.drive();
    w.finish();
    w.rescan();
    let mut st = w.stats.borrow().clone();
    st.messages = w.rep.messages;
    st.traps = w.rep.traps;
    st.sim_s = (w.now - T0) / S;
    st.trace_hash = w.prev_trace();
    st.reorgs = w.chain.reorgs;
    let v: Vec<Violation> = w.violations.values().cloned().collect();
    let edges = std::mem::take(&mut w.edges);
    drop(w);
    rep.exec().fail_perform = None;
    (v, st, edges)
}

/// The state a run ends in, the kinds of log entries it wrote and how many.
pub fn run_for_fixture(rep: &mut Replica, plan: &Plan) -> Option<(crate::legacy::Fixture, BTreeSet<String>, usize)> {
    rep.reset();
    let mut w = World::new(rep, plan, false);
    w.boot();
    w.drive();
    if !w.violations.is_empty() || w.rep.status == Status::Empty {
        return None;
    }
    let names = w.events.iter().map(|e| format!("{:?}", e.payload).split([' ', '(', '{']).next().unwrap_or("").to_string()).collect();
    let n = w.events.len();
    let ids: Vec<u64> = w.wds.keys().cloned().chain(w.failed.keys().cloned()).collect();
    let (now, admin) = (w.now, w.admin);
    drop(w);
    rep.exec().fail_perform = None;
    rep.exec().now = now;
    crate::legacy::take(rep, plan.cfg.net, now, ids, admin.as_slice()).map(|f| (f, names, n))
}

impl<'a> World<'a> {
    fn new(rep: &'a mut Replica, plan: &'a Plan, verbose: bool) -> World<'a> {
        let c = &plan.cfg;
        let seed = plan.seed;
        let me = cid(1);
        let conf = Conf {
            net: c.net,
            tag: c.tag,
            helper: helper(seed, 0),
            min_wd: bigs(&c.min_wd),
            ledger_fee: bigs(&c.ledger_fee),
            dep_fee: bigs(&c.dep_fee),
            wd_fee: bigs(&c.wd_fee),
            prio_min: BigUint::from(c.prio_min),
            nonce: c.nonce,
            evm_rpc: Principal::from_text(EVM_RPC).unwrap(),
        };
        let mut chain = Chain::new(seed, T0, c.net, c.tag, c.finality_s, c.head0, c.base_fee, c.prio, c.nonce, T0 + plan.active_s * S);
        chain.after = plan.after;
        chain.tips_only = plan.tips_only;
        for f in &plan.faults {
            let (a, b) = (T0 + f.from_s * S, T0 + f.to_s * S);
            match f.kind {
                F::FeeSpike => chain.spikes.push((a, b, [2u64, 5, 15, 20, 40, 100][(f.arg % 6) as usize], [2u8, 2, 0, 0, 1][(f.arg / 6 % 5) as usize])),
                F::StuckPool => chain.stuck.push((a, b)),
                _ => {}
            }
        }
        let mut ledgers = vec![Ledger::new(cid(10), conf.ledger_fee.clone(), me, c.block0)];
        let mut tokens = vec![];
        for (i, t) in c.tokens.iter().enumerate() {
            let mut addr = [0u8; 20];
            addr.copy_from_slice(&keccak(format!("token {} {}", seed, i).as_bytes())[..20]);
            if i == 1 {
                addr[0] = 0;
            }
            let id = cid(20 + i as u8);
            let first = if h2(seed, 0xb11) % 2 == 0 { c.block0 } else { h3(seed, 0xb10, i as u64) % 400 };
            ledgers.push(Ledger::new(id, BigUint::from(h3(seed, 0x1ed, i as u64) % 3 * 500), me, first));
            tokens.push(TokenInfo { symbol: t.symbol.clone(), addr, ledger: id, li: i + 1, registered: None });
            chain.erc20.insert(addr, BigUint::default());
        }
        let start_head = chain.tag_head(c.tag, T0).saturating_sub(DEPTH[c.net]);
        let first = start_head.saturating_sub(c.lag);
        World {
            rep,
            plan,
            now: T0,
            last_msg: T0,
            seq: 0,
            q: BTreeMap::new(),
            chain,
            ledgers,
            tokens,
            registered: vec![],
            conf,
            me,
            lsm: cid(2),
            admin: cid(3),
            users: (0..c.users).map(|i| user_principal(seed, i)).collect(),
            flights: BTreeMap::new(),
            ctxs: BTreeMap::new(),
            ops: vec![],
            ucalls: vec![],
            events: vec![],
            cur: Cur::default(),
            dead_users: 0,
            arrive_last: BTreeMap::new(),
            ords: BTreeMap::new(),
            pf: Rc::new(RefCell::new(PerformFaults::default())),
            low: false,
            pending_stop: None,
            violations: BTreeMap::new(),
            stats: RefCell::new(Stats::default()),
            verbose,
            edges: BTreeSet::new(),
            prev_label: 0,
            edges_prev: 0,
            cur_flight: None,
            minter_addr: None,
            sends: 0,
            byz: 0,
            tags: vec![c.tag],
            deps: BTreeMap::new(),
            last_scraped: first,
            first_block: first + 1,
            scanned: vec![],
            excused: vec![],
            skipped: BTreeSet::new(),
            size_failed: BTreeSet::new(),
            observed: None,
            helper_set: c.helper_at_s == 0,
            obs_time: None,
            est: None,
            ests: vec![],
            wds: BTreeMap::new(),
            failed: BTreeMap::new(),
            next_nonce: c.nonce,
            native_balance: BigUint::default(),
            rescan: false,
            fee_mints: 0,
            fee_mint_tries: 0,
            native_mints: 0,
            fee_due: 0,
            injected_traps: 0,
            trap_mint: 0,
            trap_other: 0,
            perform_fails: 0,
            lsm_calls: 0,
            last_scrape_start: None,
            scrape_promises: vec![],
            end: T0 + (plan.active_s + plan.quiet_s) * S,
            done: (0, T0),
            upgrades_done: 0,
            known_raw: BTreeMap::new(),
            up_arg: None,
            bal20: BTreeMap::new(),
            scrape_starts: vec![],
            stops: vec![],
            msg_perform_fails: 0,
            dust: BTreeSet::new(),
            active: BTreeMap::new(),
            epoch: T0,
            epoch_scrapes: 0,
            epoch_requests: 0,
            mint_again: None,
        }
    }

    pub fn prev_event(&mut self, name: &str) {
        self.prev_label = hs(self.prev_label, name, 1);
        let e = hs(9, name, 0);
        self.edges.insert(h2(e, self.edges_prev));
    }
    pub fn prev_trace(&self) -> u64 {
        self.prev_label
    }
    pub fn secs(&self) -> u64 {
        (self.now - T0) / S
    }
    pub fn fail(&mut self, props: &[&'static str], msg: String) {
        for p in props {
            // While blocks are read again, only what gets minted is judged.
            if self.rescan && *p != "P01" {
                continue;
            }
            if !self.violations.contains_key(p) {
                if self.verbose {
                    eprintln!("{:>6} !! {} {}", self.secs(), p, msg);
                }
                crate::early(p, &msg, self.secs());
                self.violations.insert(p, Violation { prop: p, msg: msg.clone(), at_s: self.secs() });
            }
        }
    }
    /// The property in question has failed, or so much has that the model no longer means anything.
    pub fn enough(&self) -> bool {
        self.violations.len() >= 10 || self.violations.contains_key(crate::target())
    }
    /// Counts one evaluation of a property's oracle.
    pub fn hit(&self, p: &'static str) {
        *self.stats.borrow_mut().checks.entry(p).or_default() += 1;
    }
    pub fn note(&mut self, s: &str) {
        self.prev_label = hs(self.prev_label, s, self.now);
        if self.verbose {
            eprintln!("{:>9.3} {}", (self.now - T0) as f64 / 1e9, s);
        }
    }

    // ---- faults
    pub fn fault_window(&self, kind: F, key: u64) -> Option<Fault> {
        let t = self.now.saturating_sub(T0) / S;
        let f = self.plan.faults.iter().find(|f| f.kind == kind && f.from_s <= t && t < f.to_s && h3(f.salt, kind as u64, key) % 1000 < f.p)?;
        *self.stats.borrow_mut().faults.entry(format!("{:?}", kind)).or_default() += 1;
        Some(f.clone())
    }
    pub fn fault(&self, kind: F, key: u64) -> bool {
        self.fault_window(kind, key).is_some()
    }
    fn ord(&mut self, k: &str) -> u64 {
        let n = self.ords.entry(k.to_string()).or_default();
        *n += 1;
        *n
    }
    pub fn push(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        let k = (t.max(self.now), self.seq);
        self.q.insert(k, e);
    }

    // ---- boot
    pub fn init_arg(&self) -> InitArg {
        let c = &self.plan.cfg;
        InitArg {
            evm_network: NETWORKS[c.net],
            ecdsa_key_name: c.key.clone(),
            helper_contract_address: (c.helper_at_s == 0).then(|| match self.plan.seed % 3 {
                0 => hex0x(&self.conf.helper),
                1 => checksum(&self.conf.helper),
                _ => format!("0x{}", hex::encode_upper(self.conf.helper)),
            }),
            native_ledger_id: self.ledgers[0].id,
            native_index_id: cid(11),
            native_symbol: self.native_symbol(),
            block_height: tag_of(c.tag),
            native_minimum_withdrawal_amount: nat(&self.conf.min_wd),
            native_ledger_transfer_fee: nat(&self.conf.ledger_fee),
            next_transaction_nonce: Nat::from(c.nonce),
            last_scraped_block_number: Nat::from(self.last_scraped),
            min_max_priority_fee_per_gas: nat(&self.conf.prio_min),
            ledger_suite_manager_id: self.lsm,
            deposit_native_fee: nat(&self.conf.dep_fee),
            withdrawal_native_fee: nat(&self.conf.wd_fee),
        }
    }
    pub fn native_symbol(&self) -> String {
        ["ckETH", "icBNB", "icMATIC.evm"][(self.plan.seed % 3) as usize].to_string()
    }

    fn boot(&mut self) {
        if self.enough() {
            return;
        }
        self.minter_addr = Some(key_address(&signing_key(&self.plan.cfg.key, &[])));
        let e = self.rep.exec();
        e.self_id = self.me.as_slice().to_vec();
        e.controllers = vec![self.admin.as_slice().to_vec()];
        e.balance = FULL;
        e.now = self.now;
        {
            let mut p = self.pf.borrow_mut();
            p.self_id = e.self_id.clone();
        }
        let pf = self.pf.clone();
        e.fail_perform = Some(Box::new(move |_n, c: &OutCall| {
            let mut p = pf.borrow_mut();
            if p.p == 0 || c.callee == p.self_id {
                return 0;
            }
            p.n += 1;
            if h3(p.salt, 0x9e4f, p.n) % 1000 < p.p {
                p.failed.push(c.clone());
                2
            } else {
                0
            }
        }));
        // Pre-existing deposits.
        for i in 0..self.plan.acts.len() {
            if self.plan.acts[i].at_ms == 0 {
                if let Op::Deposit { .. } = self.plan.acts[i].op {
                    self.do_deposit(i, true);
                }
            }
        }
        for k in self.plan.cfg.bad_inits.clone() {
            let arg = self.bad_init(k);
            let fx = self.rep.install(self.admin.as_slice(), &arg);
            self.hit("P20");
            if fx.trapped.is_none() {
                self.fail(&["P20"], format!("an invalid installation (variant {}) was accepted", k));
                self.rep.reset_instance();
            }
        }
        let arg = Encode!(&MinterArg::InitArg(self.init_arg())).unwrap();
        self.rep.exec().dirty = false;
        let fx = self.rep.install(self.admin.as_slice(), &arg);
        if let Some(m) = &fx.trapped {
            self.fail(&["P20"], format!("a valid installation was refused: {}", m));
            return;
        }
        self.cur = Cur { label: "init".into(), ..Cur::default() };
        self.note("init");
        self.sync_events();
        self.after_message();
        self.check_config();
        for (i, t) in self.plan.cfg.tokens.iter().enumerate() {
            let at = if t.at_s == 0 { T0 + (100 + 10 * i as u64) * 1_000_000 } else { T0 + t.at_s * S };
            self.push(at, Ev::Reg(i));
        }
        for i in 0..self.plan.acts.len() {
            let a = &self.plan.acts[i];
            if a.at_ms != 0 {
                let at = T0 + a.at_ms * 1_000_000;
                self.push(at, Ev::Act(i));
            }
        }
        if self.plan.cfg.helper_at_s != 0 {
            let at = T0 + self.plan.cfg.helper_at_s * S;
            self.push(at, Ev::Helper);
        }
        self.push(T0 + 60 * S, Ev::Check);
    }

    // ---- main loop
    pub fn drive(&mut self) {
        if self.rep.status == Status::Empty {
            return;
        }
        while let Some(((t, seq), ev)) = self.q.pop_first() {
            if t > self.end {
                self.now = self.end;
                break;
            }
            self.now = self.now.max(t);
            // A stalled subnet executes nothing for a while.
            if !matches!(ev, Ev::Check | Ev::Arrive(_)) {
                if let Some(end) = self.stalled() {
                    self.q.insert((end, seq), ev);
                    continue;
                }
            }
            match ev {
                Ev::Act(i) => self.act(i),
                Ev::Reg(i) => self.register(i),
                Ev::Helper => {
                    if self.helper_set {
                        continue;
                    }
                    if self.rep.status == Status::Running {
                        self.stop(Some(NAME_HELPER));
                    }
                    let at = self.now + 5 * S;
                    self.push(at, Ev::Helper);
                }
                Ev::Arrive(cb) => self.arrive(cb),
                Ev::Deliver(cb) => self.deliver(cb),
                Ev::SelfRun(cb) => self.self_run(cb),
                Ev::Timer(d) => self.timer(d),
                Ev::Start => {
                    if self.rep.status == Status::Stopped {
                        self.rep.status = Status::Running;
                        self.note("start");
                        self.arm();
                    }
                }
                Ev::Check => {
                    if self.rescan {
                        continue;
                    }
                    self.check();
                    if self.now >= T0 + (self.plan.active_s + 60) * S && self.settled() {
                        self.stats.borrow_mut().settled = true;
                        break;
                    }
                    self.extend();
                    let at = self.now + 60 * S;
                    self.push(at, Ev::Check);
                }
            }
            if self.enough() {
                break;
            }
        }
    }
    /// A run ends when nothing has been completed for half an hour: how fast the work is done is the
    /// minter's own affair, that it goes on is not.
    fn extend(&mut self) {
        let st = self.stats.borrow();
        let done = st.mints + st.finalized + st.reimbursed;
        if done != self.done.0 {
            self.done = (done, self.now);
        }
        let last = T0 + (self.plan.active_s + 3 * self.plan.quiet_s) * S;
        self.end = self.end.max((self.done.1 + 1800 * S).min(last));
    }
    fn stalled(&self) -> Option<u64> {
        let t = (self.now - T0) / S;
        let f = self.plan.faults.iter().find(|f| f.kind == F::Stall && f.from_s <= t && t < f.to_s.min(f.from_s + 240))?;
        *self.stats.borrow_mut().faults.entry("Stall".into()).or_default() += 1;
        Some(T0 + f.to_s.min(f.from_s + 240) * S)
    }

    pub fn arm(&mut self) {
        if self.rep.status != Status::Running {
            return;
        }
        let d = self.rep.timer();
        if d == 0 {
            return;
        }
        let mut at = d.max(self.now);
        let k = hs(self.plan.seed, "timer", d);
        at += k % 900_000_000;
        if let Some(f) = self.fault_window(F::TimerDelay, k) {
            at += (f.arg % 90) * S;
        }
        self.push(at, Ev::Timer(d));
    }

    pub fn tick(&mut self) -> u64 {
        self.now = self.now.max(self.last_msg + 1);
        self.last_msg = self.now;
        self.rep.exec().now = self.now;
        self.now
    }

    fn timer(&mut self, d: u64) {
        if self.rep.status != Status::Running || self.rep.timer() != d {
            return;
        }
        self.before(None, false);
        self.cur = Cur { label: "timer".into(), ..Cur::default() };
        let fx = self.rep.global_timer();
        self.after(fx);
    }

    /// Prepares faults for the next message.
    fn before(&mut self, trap_key: Option<u64>, minted: bool) {
        self.tick();
        let low = self.fault(F::LowCycles, 1);
        let e = self.rep.exec();
        if low && !self.low {
            e.balance = 50_000_000_000;
        } else if !low && e.balance < FULL / 2 {
            e.balance = FULL;
        }
        self.low = low;
        e.dirty = false;
        let pf = self.fault_window_quiet(F::PerformFail);
        {
            let mut p = self.pf.borrow_mut();
            p.failed.clear();
            match pf {
                Some(f) => {
                    p.p = f.p.min(500);
                    p.salt = f.salt;
                }
                None => p.p = 0,
            }
        }
        if let Some(k) = trap_key {
            if let Some(f) = self.fault_window(F::Trap, k).or_else(|| if minted { self.fault_window(F::TrapMint, k) } else { None }) {
                let n = 1 + h3(f.salt, 0x7a9, k) % if f.arg % 2 == 0 { 12 } else { 60 };
                self.rep.exec().trap_at = Some(n);
            }
        }
    }
    fn fault_window_quiet(&self, kind: F) -> Option<Fault> {
        let t = self.now.saturating_sub(T0) / S;
        self.plan.faults.iter().find(|f| f.kind == kind && f.from_s <= t && t < f.to_s).cloned()
    }

    /// Takes in everything a message did.
    fn after(&mut self, fx: Effects) {
        self.rep.exec().trap_at = None;
        let label = if self.cur.label.is_empty() { fx.label.clone() } else { self.cur.label.clone() };
        self.cur.label = label.clone();
        if let Some(m) = &fx.trapped {
            self.cur.trapped = Some(m.clone());
            let inj = m == "injected trap" || m.contains("insufficient cycles");
            self.cur.injected = inj;
            if inj {
                self.injected_traps += 1;
                self.on_injected_trap();
            } else {
                self.stats.borrow_mut().genuine_traps += 1;
            }
            if let Some(c) = self.cur.ctx {
                if let Some(x) = self.ctxs.get_mut(&c) {
                    x.dead = true;
                }
            }
        }
        self.note(&format!(
            "{}{}{}",
            label,
            fx.trapped.as_ref().map_or(String::new(), |m| format!(" TRAP {}", m)),
            fx.cleanup_trapped.as_ref().map_or(String::new(), |m| format!(" CLEANUP TRAP {}", m))
        ));
        let edge = hs(hs(7, &label, 0), "", self.flights.len() as u64 + ((fx.trapped.is_some() as u64) << 32));
        self.edges.insert(h2(edge, self.edges_prev));
        self.edges_prev = edge;
        // Calls.
        let mut new = vec![];
        let (root, mut started) = (self.cur.ctx.is_none(), Vec::<String>::new());
        for (cb, call) in fx.calls {
            let (origin, _l, ctx) = self.rep.owner(cb).expect("owner");
            // A task of a context that carries several goes on as itself; a message that starts with
            // different requests at once started a task for each.
            let context = ctx;
            let mut ctx = self.cur.ctx.filter(|c| context_of(*c) == context).unwrap_or(context);
            if root && !matches!(origin, Origin::User(_)) {
                let i = started.iter().position(|m| *m == call.method).unwrap_or(started.len());
                if i == started.len() {
                    started.push(call.method.clone());
                }
                if i > 0 {
                    ctx = context | (15 + i as u64) << 56;
                    if let Some(x) = self.ctxs.get_mut(&context) {
                        x.split = true;
                    }
                }
            }
            if !self.ctxs.contains_key(&ctx) {
                let x = Ctx::new(origin.clone(), self.now, self.registered.len(), self.conf.helper);
                self.ctxs.insert(ctx, Ctx { split: ctx != context, ..x });
            }
            if self.cur.ctx.is_none() {
                self.cur.ctx = Some(ctx);
            }
            if let Origin::User(u) = &origin {
                self.ucalls[*u as usize].ctx = Some(ctx);
            }
            new.push(self.launch(cb, call, origin, ctx));
        }
        let failed: Vec<OutCall> = std::mem::take(&mut self.pf.borrow_mut().failed);
        self.msg_perform_fails = 0;
        if !failed.is_empty() && fx.trapped.is_none() {
            self.msg_perform_fails = failed.len() as u32;
            self.perform_fails += failed.len() as u64;
            *self.stats.borrow_mut().faults.entry("PerformFail".into()).or_default() += failed.len() as u64;
            for c in failed {
                self.on_perform_failed(&c);
            }
        }
        // The message's facts first, then its log entries, then what it asked for.
        self.on_facts();
        self.sync_events();
        if fx.trapped.is_none() {
            self.check_refused();
        }
        for cb in new {
            self.on_call(cb);
        }
        for (o, r) in fx.answers {
            match o {
                Origin::User(u) => self.on_answer(u, r),
                Origin::SelfCall(cb) => {
                    if let Some(f) = self.flights.get_mut(&cb) {
                        f.answer = Some((r, 0, Facts::Nothing));
                        let at = self.now + hs(self.plan.seed, "selfback", cb) % 300_000_000;
                        self.push(at, Ev::Deliver(cb));
                    }
                }
                Origin::System => {}
            }
        }
        let open: BTreeSet<u64> = self.rep.contexts.keys().cloned().collect();
        let ended: Vec<Ctx> = self.ctxs.iter().filter(|(c, x)| !x.split && !open.contains(c) && (x.failed_mints > 0 || x.finalized.is_some() || x.latest.is_some() || x.read.is_some()) && !x.dead).map(|(_, x)| x.clone()).collect();
        for x in ended {
            self.check_looked_up(&x);
            self.check_sent(&x);
            self.check_raised(&x);
            self.check_read(&x);
            if x.failed_mints == 0 {
                continue;
            }
            if x.class == Class::Mint {
                self.mint_again = Some(self.now);
            }
            self.check_held_up(&x);
        }
        let flights = &self.flights;
        self.ctxs.retain(|c, _| open.contains(&context_of(*c)) && (*c == context_of(*c) || flights.values().any(|f| f.ctx == *c)));
        self.after_message();
    }

    fn after_message(&mut self) {
        if self.rep.status == Status::Stopping && self.rep.contexts.is_empty() && self.rep.callbacks.is_empty() {
            self.rep.status = Status::Stopped;
            self.note("stopped");
            let what = self.pending_stop.take().flatten();
            if let Some(spec) = what {
                self.do_upgrade(spec);
            }
            let at = self.now + S + h2(self.plan.seed, self.now) % (40 * S);
            self.push(at, Ev::Start);
        }
        self.arm();
    }

    /// Puts an outgoing call in flight.
    fn launch(&mut self, cb: u64, call: OutCall, origin: Origin, ctx: u64) -> u64 {
        let seed = self.plan.seed;
        let callee = Principal::from_slice(&call.callee);
        let kind = if call.callee.is_empty() {
            FK::Mgmt
        } else if callee == self.me {
            FK::SelfCall
        } else if callee == self.lsm {
            FK::Lsm
        } else if let Some(i) = self.ledgers.iter().position(|l| l.id == callee) {
            FK::Ledger(i)
        } else if METHODS.contains(&call.method.as_str()) {
            FK::Rpc
        } else {
            FK::Other
        };
        let ord = self.ord(&format!("{:?}{}", kind, call.method));
        let k = hs(hs(seed, &call.method, ord), "lat", matches!(kind, FK::Rpc) as u64);
        let (base, spread) = match kind {
            FK::Rpc => (S, 9 * S),
            FK::Ledger(_) => (S / 2, 2 * S),
            FK::Mgmt => (S, 3 * S),
            FK::SelfCall => (0, 400_000_000),
            _ => (S, 5 * S),
        };
        let mut lat = base + k % spread;
        let slow = match kind {
            FK::Rpc => Some(F::SlowRpc),
            FK::Ledger(_) => Some(F::SlowLedger),
            FK::Mgmt => Some(F::SlowMgmt),
            _ => None,
        };
        if let Some(s) = slow {
            if let Some(f) = self.fault_window(s, k) {
                lat += (k >> 8) % ((5 + f.arg % 200) * S);
            }
        }
        let rpc = if kind == FK::Rpc { decode(&call.method, &call.arg).ok() } else { None };
        let mut op = None;
        if let FK::Ledger(li) = kind {
            let req = match call.method.as_str() {
                "icrc1_transfer" => Decode!(&call.arg, TransferArg).ok().map(LReq::Transfer),
                "icrc2_transfer_from" => Decode!(&call.arg, TransferFromArgs).ok().map(LReq::From),
                _ => None,
            };
            if let Some(req) = req {
                self.ops.push(LOp { li, ctx, origin: origin.clone(), req, res: None, sent: self.now, seen: false, injected: false });
                op = Some(self.ops.len() - 1);
                if let Origin::User(u) = &origin {
                    self.ucalls[*u as usize].ops.push(self.ops.len() - 1);
                }
            }
        }
        // Requests to one destination stay in order.
        let slot = if kind == FK::SelfCall { vec![] } else { call.callee.clone() };
        let last = self.arrive_last.get(&slot).cloned().unwrap_or(0);
        let mut at = self.now + lat / 2;
        if kind != FK::SelfCall || !self.fault(F::Reorder, k) {
            at = at.max(last + 1);
            self.arrive_last.insert(slot, at);
        }
        self.flights.insert(cb, Flight { ctx, origin, call, kind: kind.clone(), sent: self.now, ord, rpc, op, answer: None, attempt: 1 });
        match kind {
            FK::SelfCall => self.push(at, Ev::SelfRun(cb)),
            _ => self.push(at, Ev::Arrive(cb)),
        }
        cb
    }

    /// A request reaches its destination.
    fn arrive(&mut self, cb: u64) {
        let f = self.flights.get(&cb).expect("flight").clone();
        let seed = self.plan.seed;
        let k = hs(hs(seed, &f.call.method, f.ord), "ans", 1);
        let (resp, refund, facts) = match &f.kind {
            FK::Rpc => match &f.rpc {
                Some(r) => self.rpc(&f.call.method, r, f.call.cycles, f.ord),
                None => (Response::Reject(5, "cannot decode".into()), f.call.cycles, Facts::Failed),
            },
            FK::Ledger(li) => self.ledger(*li, &f, k),
            FK::Mgmt => self.management(&f, k),
            FK::Lsm => {
                if self.fault(F::LsmReject, k) {
                    (Response::Reject(5, "lsm unavailable".into()), 0, Facts::Failed)
                } else {
                    let r: Result<(), InvalidNativeInstalledCanistersError> =
                        if k % 5 == 0 { Err(InvalidNativeInstalledCanistersError::TokenAlreadyManaged) } else { Ok(()) };
                    (Response::Reply(Encode!(&r).unwrap()), 0, Facts::Lsm)
                }
            }
            _ => (Response::Reject(3, "no such canister".into()), f.call.cycles, Facts::Failed),
        };
        let (base, spread) = match f.kind {
            FK::Rpc => (S, 10 * S),
            FK::Ledger(_) => (S / 2, 2 * S),
            FK::Mgmt => (2 * S, 4 * S),
            _ => (S, 3 * S),
        };
        let mut lat = base + h2(k, 5) % spread;
        let slow = match f.kind {
            FK::Rpc => Some(F::SlowRpc),
            FK::Ledger(_) => Some(F::SlowLedger),
            FK::Mgmt => Some(F::SlowMgmt),
            _ => None,
        };
        if let Some(s) = slow {
            if let Some(w) = self.fault_window(s, h2(k, 6)) {
                lat += h2(k, 7) % ((5 + w.arg % 200) * S);
            }
        }
        self.flights.get_mut(&cb).unwrap().answer = Some((resp, refund, facts));
        let at = self.now + lat;
        self.push(at, Ev::Deliver(cb));
    }

    fn ledger(&mut self, li: usize, f: &Flight, k: u64) -> (Response, u128, Facts) {
        let Some(oi) = f.op else {
            return (Response::Reject(3, "no such method".into()), 0, Facts::Failed);
        };
        if self.fault(F::LedgerReject, k) {
            let code = [2, 4, 5][(k >> 5) as usize % 3];
            self.ops[oi].res = Some(LRes::Reject(code));
            self.ops[oi].injected = true;
            return (Response::Reject(code, "simulated ledger reject".into()), 0, Facts::Failed);
        }
        let injected = if self.fault(F::LedgerTemp, k) {
            Some(TransferFromError::TemporarilyUnavailable)
        } else if self.fault(F::LedgerGeneric, k) {
            Some(TransferFromError::GenericError { error_code: Nat::from(7u8), message: "simulated".into() })
        } else {
            None
        };
        let t = self.now;
        let req = self.ops[oi].req.clone();
        let me = self.me;
        // Block numbers of different ledgers may coincide: other users' transfers may fill the gap.
        if li > 0 && h2(self.plan.seed, 0xb11) % 2 == 0 && h2(k, 8) % 2 == 0 {
            let n = self.ledgers[li].next;
            let ids: Vec<u64> = self.wds.keys().chain(self.failed.keys()).cloned().filter(|i| *i >= n).collect();
            if !ids.is_empty() {
                self.ledgers[li].next = ids[(h2(k, 9) % ids.len() as u64) as usize];
            }
        }
        let r: Result<u64, TransferFromError> = match (&req, injected) {
            (_, Some(e)) => {
                self.ops[oi].injected = true;
                Err(e)
            }
            (LReq::Transfer(a), None) => self.ledgers[li].transfer(me, a, t).map_err(widen),
            (LReq::From(a), None) => self.ledgers[li].transfer_from(me, a, t),
        };
        let bytes = match &req {
            LReq::From(_) => Encode!(&r.clone().map(Nat::from)).unwrap(),
            LReq::Transfer(_) => {
                let r2: Result<Nat, TransferError> = r.clone().map(Nat::from).map_err(narrow);
                Encode!(&r2).unwrap()
            }
        };
        self.ops[oi].res = Some(match &r {
            Ok(n) => LRes::Ok(*n),
            Err(e) => LRes::Err(e.clone()),
        });
        if r.is_ok() {
            self.on_ledger_block(oi);
        }
        let facts = match r {
            Ok(n) => Facts::LedgerOk(n),
            Err(e) => Facts::LedgerErr(e),
        };
        (Response::Reply(bytes), 0, facts)
    }

    fn management(&mut self, f: &Flight, k: u64) -> (Response, u128, Facts) {
        match f.call.method.as_str() {
            "ecdsa_public_key" => {
                if self.fault(F::KeyFail, k) {
                    return (Response::Reject(2, "key unavailable".into()), f.call.cycles, Facts::Failed);
                }
                let Ok(a) = Decode!(&f.call.arg, EcdsaPublicKeyArg) else {
                    return (Response::Reject(5, "bad argument".into()), f.call.cycles, Facts::Failed);
                };
                let key = signing_key(&a.key_id.name, &a.derivation_path);
                let r = EcdsaPublicKeyReply {
                    public_key: ByteBuf::from(key.verifying_key().to_encoded_point(true).as_bytes().to_vec()),
                    chain_code: ByteBuf::from(vec![7u8; 32]),
                };
                (Response::Reply(Encode!(&r).unwrap()), f.call.cycles, Facts::Key)
            }
            "sign_with_ecdsa" => {
                if self.fault(F::SignFail, k) {
                    let code = [2, 5, 4][(k >> 4) as usize % 3];
                    return (Response::Reject(code, "signing unavailable".into()), f.call.cycles, Facts::Failed);
                }
                let Ok(a) = Decode!(&f.call.arg, SignWithEcdsaArg) else {
                    return (Response::Reject(5, "bad argument".into()), f.call.cycles, Facts::Failed);
                };
                if f.call.cycles < 10_000_000_000 {
                    return (Response::Reject(4, "not enough cycles".into()), f.call.cycles, Facts::Failed);
                }
                use k256::ecdsa::signature::hazmat::PrehashSigner;
                let key = signing_key(&a.key_id.name, &a.derivation_path);
                let sig: k256::ecdsa::Signature = key.sign_prehash(&a.message_hash).unwrap();
                let sig = sig.normalize_s().unwrap_or(sig);
                let r = SignWithEcdsaReply { signature: ByteBuf::from(sig.to_bytes().to_vec()) };
                (Response::Reply(Encode!(&r).unwrap()), f.call.cycles.saturating_sub(26_153_846_153), Facts::Signed)
            }
            _ => (Response::Reject(5, "not authorised".into()), f.call.cycles, Facts::Failed),
        }
    }

    fn deliver(&mut self, cb: u64) {
        if self.rep.status == Status::Stopped {
            return;
        }
        let f = self.flights.remove(&cb).expect("flight");
        let (resp, refund, facts) = f.answer.clone().expect("answer");
        let timer_ctx = matches!(f.origin, Origin::SelfCall(_));
        let n = self.ord("respond");
        let minted = f.op.map_or(false, |o| matches!(self.ops[o].req, LReq::Transfer(_)) && matches!(self.ops[o].res, Some(LRes::Ok(_))));
        self.before(if timer_ctx { Some(hs(self.plan.seed, "cb", n)) } else { None }, minted);
        if let Some(oi) = f.op {
            self.ops[oi].seen = true;
        }
        self.cur = Cur {
            label: format!("callback {}", short(&f.call.method)),
            facts,
            user: if let Origin::User(u) = f.origin { Some(u) } else { None },
            ctx: Some(f.ctx),
            cb: Some(cb),
            op: f.op,
            timer: timer_ctx,
            trapped: None,
            injected: false,
        };
        self.cur_flight = Some(f);
        let fx = self.rep.respond(cb, &resp, refund);
        self.after(fx);
        self.cur_flight = None;
    }

    fn self_run(&mut self, cb: u64) {
        let f = self.flights.get(&cb).expect("flight").clone();
        if self.rep.status != Status::Running {
            let r = (Response::Reject(5, "IC0509: canister is stopping".into()), 0, Facts::Nothing);
            self.flights.get_mut(&cb).unwrap().answer = Some(r);
            let at = self.now + 1;
            self.push(at, Ev::Deliver(cb));
            return;
        }
        let n = self.ord("selfrun");
        self.before(Some(hs(self.plan.seed, "task", n)), false);
        self.cur = Cur { label: format!("run {}", short(&f.call.method)), timer: true, ..Cur::default() };
        let id = self.me.as_slice().to_vec();
        let fx = self.rep.update(&f.call.method, &id, &f.call.arg, Origin::SelfCall(cb), "task");
        self.after(fx);
    }

    /// An ingress message; None when the canister is not accepting any.
    pub fn ingress(&mut self, method: &str, caller: Principal, arg: &[u8], kind: UK) -> Option<u64> {
        if self.rep.status != Status::Running {
            self.note(&format!("{} dropped: not running", method));
            return None;
        }
        self.before(None, false);
        let id = self.ucalls.len() as u64;
        let wd = matches!(kind, UK::Native { .. } | UK::Erc20 { .. });
        let contended = wd && self.ucalls.iter().any(|u| u.open && u.caller == caller && matches!(u.kind, UK::Native { .. } | UK::Erc20 { .. }));
        let open = self.ucalls.iter().filter(|u| u.open && matches!(u.kind, UK::Native { .. } | UK::Erc20 { .. })).count();
        let waiting = self.wds.values().filter(|w| w.txs.is_empty()).count();
        let full = wd && (open >= 100 || waiting >= 100);
        let fee_busy = self.flights.values().any(|f| f.call.method == "eth_feeHistory");
        let est_fresh = self.est.as_ref().map_or(false, |e| self.now < e.t + 30 * S);
        let scrape_expect = if let UK::Scrape { block } = &kind { Some(self.expect_scrape(block)) } else { None };
        self.ucalls.push(UCall {
            caller,
            kind,
            t: self.now,
            ops: vec![],
            fee_calls: 0,
            fee_failed: false,
            open: true,
            ctx: None,
            contended,
            full,
            fee_busy,
            est_fresh,
            low_cycles: self.low,
            rejected: None,
            events: vec![],
            scrape_expect,
            perform_failed: 0,
        });
        self.cur = Cur { label: format!("ingress {}", method), user: Some(id), ..Cur::default() };
        let fx = self.rep.update(method, caller.as_slice(), arg, Origin::User(id), method);
        self.after(fx);
        Some(id)
    }

    pub fn query<R: for<'d> candid::Deserialize<'d> + candid::CandidType>(&mut self, method: &str, arg: Vec<u8>) -> Result<R, String> {
        self.rep.exec().now = self.now;
        let caller = self.users[0];
        let b = self.rep.query(method, caller.as_slice(), &arg)?;
        Decode!(&b, R).map_err(|e| format!("decode: {}", e))
    }
    pub fn info(&mut self) -> Option<MinterInfo> {
        match self.query::<MinterInfo>("get_minter_info", Encode!().unwrap()) {
            Ok(i) => Some(i),
            Err(e) => {
                self.fail(&["P20"], format!("get_minter_info failed: {}", e));
                None
            }
        }
    }

    // ---- actions
    pub fn tok(&self, token: i64) -> Option<usize> {
        if token >= 0 && (token as usize) < self.tokens.len() {
            Some(token as usize)
        } else {
            None
        }
    }

    fn do_deposit(&mut self, i: usize, genesis: bool) {
        let Op::Deposit { user, sub, token, amt, form, batch } = self.plan.acts[i].op.clone() else { return };
        let seed = self.plan.seed;
        let u = self.users[(user % self.users.len() as u64) as usize];
        let t = self.now;
        let block = if genesis {
            // Somewhere between the configured start and what is already safe.
            let hi = self.chain.tag_head(self.plan.cfg.tag, T0).saturating_sub(DEPTH[self.conf.net]);
            let lo = self.first_block;
            lo + h3(seed, 0x9e5, i as u64) % (hi - lo + 1)
        } else {
            self.chain.head(t) + 1
        };
        let at = self.chain.time_of(block);
        let mut taddr = match self.tok(token) {
            Some(k) => self.tokens[k].addr,
            None => [0u8; 20],
        };
        let mut contract = self.conf.helper;
        let mut principal = u.as_slice().to_vec();
        let mut sb = sub_of(seed, sub);
        match form {
            Form::OtherContract => contract = helper(seed, 77),
            Form::Unsupported => {
                taddr.copy_from_slice(&keccak(format!("unsupported {} {}", seed, i % 3).as_bytes())[..20]);
            }
            Form::ToMinter => {
                principal = self.me.as_slice().to_vec();
                if sub == 0 {
                    sb = sub_of(seed, 1);
                }
            }
            _ => {}
        }
        let value = bigs(&amt);
        self.chain.deposit(block, at, contract, taddr, value, principal, sb, form, batch);
        self.stats.borrow_mut().deposits += 1;
        self.note(&format!("deposit token {} amount {} in block {}", token, amt, block));
    }

    fn register(&mut self, i: usize) {
        if self.rep.status != Status::Running {
            let at = self.now + 5 * S;
            self.push(at, Ev::Reg(i));
            return;
        }
        let t = self.tokens[i].clone();
        let arg = AddErc20Token {
            chain_id: Nat::from(CHAIN_IDS[self.conf.net]),
            address: if i % 2 == 0 { hex0x(&t.addr) } else { checksum(&t.addr) },
            erc20_token_symbol: t.symbol.clone(),
            erc20_ledger_id: t.ledger,
        };
        let b = Encode!(&arg).unwrap();
        let lsm = self.lsm;
        self.ingress("add_erc20_token", lsm, &b, UK::AddToken { arg, expect: true });
    }

    pub fn amount(&self, user: Principal, token: Option<usize>, a: &Amt) -> BigUint {
        let li = token.map_or(0, |k| self.tokens[k].li);
        let plus = |x: &BigUint, d: i64| -> BigUint {
            if d >= 0 {
                x + BigUint::from(d as u64)
            } else {
                let d = BigUint::from(d.unsigned_abs());
                if *x >= d {
                    x - d
                } else {
                    BigUint::default()
                }
            }
        };
        match a {
            Amt::Abs(s) => bigs(s),
            Amt::Frac(n) => {
                let b = self.ledgers[li].balance(&(user, [0; 32]));
                if *n == 1001 {
                    b + 1u32
                } else {
                    b * *n / 1000u32
                }
            }
            Amt::Min(d) => plus(&self.conf.min_wd, *d),
            Amt::Fee(d) => plus(&self.conf.wd_fee, *d),
            Amt::Gas(d) => {
                let q = self.est.as_ref().map_or(BigUint::from(1u8), |e| e.max_fee()) * 21_000u32;
                let q = q + &self.conf.wd_fee;
                let step = BigUint::from(1_000_000_000u64);
                if *d >= 0 {
                    q + step * *d as u64
                } else {
                    let x = step * d.unsigned_abs();
                    if q > x {
                        q - x
                    } else {
                        q
                    }
                }
            }
            Amt::Huge => BigUint::from(1u8) << 256u32,
        }
    }

    fn act(&mut self, i: usize) {
        let op = self.plan.acts[i].op.clone();
        let seed = self.plan.seed;
        match op {
            Op::Deposit { .. } => self.do_deposit(i, false),
            Op::Approve { user, token, amt } => {
                let u = self.users[(user % self.users.len() as u64) as usize];
                let li = self.tok(token).map_or(0, |k| self.tokens[k].li);
                let a = (u, [0u8; 32]);
                let m = (self.me, [0u8; 32]);
                self.ledgers[li].allowances.insert((a, m), bigs(&amt));
                self.note(&format!("approve {} {}", li, amt));
            }
            Op::Withdraw { user, token, amt, to } => {
                let u = if user == 99 { Principal::anonymous() } else { self.users[(user % self.users.len() as u64) as usize] };
                let (dest, _) = recipient(seed, to);
                if token == -1 {
                    let amount = self.amount(u, None, &amt);
                    let b = Encode!(&WithdrawalArg { amount: nat(&amount), recipient: dest.clone() }).unwrap();
                    self.ingress("withdraw_native_token", u, &b, UK::Native { amount, to: dest });
                } else {
                    let (ledger, k) = match self.tok(token) {
                        Some(k) => (self.tokens[k].ledger, Some(k)),
                        None => ([self.ledgers[0].id, cid(99), self.lsm][i % 3], None),
                    };
                    let amount = self.amount(u, k, &amt);
                    let b = Encode!(&WithdrawErc20Arg { amount: nat(&amount), erc20_ledger_id: ledger, recipient: dest.clone() }).unwrap();
                    self.ingress("withdraw_erc20", u, &b, UK::Erc20 { ledger, amount, to: dest });
                }
            }
            Op::Scrape { delta } => {
                let block = if delta == i64::MAX {
                    BigUint::from(1u8) << 256u32
                } else {
                    let o = self.observed.unwrap_or(10) as i64;
                    BigUint::from((o + delta).max(0) as u64)
                };
                let b = Encode!(&nat(&block)).unwrap();
                let u = self.users[i % self.users.len()];
                self.ingress("request_scraping_logs", u, &b, UK::Scrape { block });
            }
            Op::AddToken { variant, n } => self.add_token(variant, n),
            Op::Upgrade { spec } => self.stop(Some(spec)),
            Op::Restart => self.stop(None),
            Op::Shadow => self.shadow(),
            Op::Probe { n } => self.probe(n),
            Op::Reorg { depth } => {
                let t = self.now;
                let tags = self.tags.clone();
                let n = self.chain.reorg(depth, t, &tags);
                self.note(&format!("reorg depth {} touched {}", depth, n));
            }
            Op::Query { n } => self.queries(n),
            Op::Junk { n } => self.junk(n),
            Op::Move { user, to, sub, token, frac } => {
                let u = self.users[(user % self.users.len() as u64) as usize];
                let v = self.users[(to % self.users.len() as u64) as usize];
                let li = self.tok(token).map_or(0, |k| self.tokens[k].li);
                let from = (u, sub_of(seed, sub));
                let bal = self.ledgers[li].balance(&from);
                let amount = bal * frac / 1000u32;
                let t = self.now;
                let _ = self.ledgers[li].transfer(
                    u,
                    &TransferArg {
                        from_subaccount: Some(from.1),
                        to: Account { owner: v, subaccount: None },
                        fee: None,
                        created_at_time: None,
                        memo: None,
                        amount: nat(&amount),
                    },
                    t,
                );
                self.note("move");
            }
            Op::Crowd { user, n } => {
                let u = self.users[(user % self.users.len() as u64) as usize];
                let m = (self.me, [0u8; 32]);
                let quote = BigUint::from(self.plan.cfg.base_fee * 2 + self.plan.cfg.prio) + &self.conf.prio_min;
                let floor = self.conf.min_wd.clone().max(&self.conf.wd_fee + self.conf.ledger_fee.clone().max(BigUint::from(1u8)));
                let each = floor + quote * 60_000u32;
                for j in 0..n {
                    let mut b = keccak(format!("crowd {} {} {}", seed, i, j).as_bytes())[..29].to_vec();
                    b[28] = 2;
                    let v = Principal::from_slice(&b);
                    let a = TransferArg { from_subaccount: None, to: Account { owner: v, subaccount: None }, fee: None, created_at_time: None, memo: None, amount: nat(&(&each + j)) };
                    let t = self.now;
                    if self.ledgers[0].transfer(u, &a, t).is_err() {
                        break;
                    }
                    self.ledgers[0].allowances.insert(((v, [0u8; 32]), m), &each * 4u32);
                    let amount = &each + j;
                    let (dest, _) = recipient(seed, j % 32);
                    let b = Encode!(&WithdrawalArg { amount: nat(&amount), recipient: dest.clone() }).unwrap();
                    self.ingress("withdraw_native_token", v, &b, UK::Native { amount, to: dest });
                }
                self.note("crowd");
            }
            Op::DropMempool => {
                let t = self.now;
                self.chain.advance(t);
                self.chain.pool.clear();
                self.note("mempool dropped");
            }
        }
    }

    fn stop(&mut self, spec: Option<u64>) {
        if self.rep.status != Status::Running {
            return;
        }
        self.rep.status = Status::Stopping;
        self.stops.push(self.now);
        self.pending_stop = Some(spec);
        self.note("stopping");
        self.tick();
        self.after_message();
    }

    fn add_token(&mut self, variant: u8, n: u64) {
        if self.rep.status != Status::Running {
            return;
        }
        let seed = self.plan.seed;
        let k = self.tokens.len();
        let mut addr = [0u8; 20];
        addr.copy_from_slice(&keccak(format!("extra {} {} {} {}", seed, variant, n, k).as_bytes())[..20]);
        let mut arg = AddErc20Token {
            chain_id: Nat::from(CHAIN_IDS[self.conf.net]),
            address: hex0x(&addr),
            erc20_token_symbol: format!("X{}_{}", k, n),
            erc20_ledger_id: cid(40 + k as u8),
        };
        let mut caller = self.lsm;
        let mut expect = false;
        let known = self.registered.last().cloned();
        match variant {
            0 => expect = true,
            1 => caller = self.users[0],
            2 => caller = Principal::anonymous(),
            3 => {
                let m = self.conf.net;
                let other = (0..10).find(|i| *i != m && CHAIN_IDS[*i] % 7 == n % 7).unwrap_or((m + 1) % 10);
                arg.chain_id = Nat::from(CHAIN_IDS[other]);
            }
            4 | 5 | 6 => match known {
                Some(t) => {
                    let t = self.tokens[t].clone();
                    match variant {
                        4 => arg.erc20_token_symbol = t.symbol,
                        5 => arg.address = if n % 2 == 0 { hex0x(&t.addr) } else { checksum(&t.addr) },
                        _ => arg.erc20_ledger_id = t.ledger,
                    }
                }
                None => expect = true,
            },
            7 => {
                // Twenty bytes are still fine.
                arg.erc20_token_symbol = format!("{:X<20}", arg.erc20_token_symbol);
                expect = arg.erc20_token_symbol.len() == 20;
            }
            8 => arg.erc20_token_symbol = format!("{:X<21}", arg.erc20_token_symbol),
            9 => arg.erc20_token_symbol = "ckÜ".into(),
            10 => arg.address = format!("0x{}", "zz".repeat(20)),
            11 => arg.address = hex0x(&addr[..19]),
            12 => arg.chain_id = Nat::from(BigUint::from(1u8) << 64u32) + Nat::from(CHAIN_IDS[self.conf.net]),
            _ => caller = self.admin,
        }
        if expect {
            if self.tokens.len() >= 8 {
                return;
            }
            self.ledgers.push(Ledger::new(arg.erc20_ledger_id, BigUint::from(10u8), self.me, 3));
            self.tokens.push(TokenInfo { symbol: arg.erc20_token_symbol.clone(), addr, ledger: arg.erc20_ledger_id, li: self.ledgers.len() - 1, registered: None });
            self.chain.erc20.entry(addr).or_default();
        }
        let b = Encode!(&arg).unwrap();
        self.ingress("add_erc20_token", caller, &b, UK::AddToken { arg, expect });
    }

    fn junk(&mut self, n: u64) {
        let u = self.users[(n % self.users.len() as u64) as usize];
        let (m, arg): (&str, Vec<u8>) = match n % 9 {
            0 => ("check_new_deposits", Encode!().unwrap()),
            1 => ("get_canister_status", Encode!().unwrap()),
            2 => ("withdraw_native_token", vec![1, 2, 3]),
            3 => (TIMER_METHOD, vec![]),
            4 => ("no_such_method", vec![]),
            5 => (TIMER_METHOD, (n % 12).to_be_bytes().to_vec()),
            6 => ("add_erc20_token", Encode!(&Nat::from(1u8)).unwrap()),
            7 => ("icrc28_trusted_origins", Encode!().unwrap()),
            _ => ("minter_address", Encode!().unwrap()),
        };
        let before = self.events.len();
        self.ingress(m, u, &arg, UK::Other { name: m.to_string() });
        if self.events.len() != before {
            self.fail(&["P13"], format!("a call of {} by a user changed the minter's state", m));
        }
    }
}

pub fn short(m: &str) -> &str {
    m.strip_prefix("<ic-cdk internal> ").unwrap_or(m)
}

/// The upgrade that names the helper contract, among the arbitrary ones.
pub const NAME_HELPER: u64 = 1_000_000_004;
pub fn helper(seed: u64, k: u64) -> [u8; 20] {
    let mut a = [0u8; 20];
    a.copy_from_slice(&keccak(format!("helper {} {}", seed, k).as_bytes())[..20]);
    a
}

fn widen(e: TransferError) -> TransferFromError {
    match e {
        TransferError::BadFee { expected_fee } => TransferFromError::BadFee { expected_fee },
        TransferError::BadBurn { min_burn_amount } => TransferFromError::BadBurn { min_burn_amount },
        TransferError::InsufficientFunds { balance } => TransferFromError::InsufficientFunds { balance },
        TransferError::TooOld => TransferFromError::TooOld,
        TransferError::CreatedInFuture { ledger_time } => TransferFromError::CreatedInFuture { ledger_time },
        TransferError::TemporarilyUnavailable => TransferFromError::TemporarilyUnavailable,
        TransferError::Duplicate { duplicate_of } => TransferFromError::Duplicate { duplicate_of },
        TransferError::GenericError { error_code, message } => TransferFromError::GenericError { error_code, message },
    }
}
fn narrow(e: TransferFromError) -> TransferError {
    match e {
        TransferFromError::BadFee { expected_fee } => TransferError::BadFee { expected_fee },
        TransferFromError::BadBurn { min_burn_amount } => TransferError::BadBurn { min_burn_amount },
        TransferFromError::InsufficientFunds { balance } => TransferError::InsufficientFunds { balance },
        TransferFromError::TooOld => TransferError::TooOld,
        TransferFromError::CreatedInFuture { ledger_time } => TransferError::CreatedInFuture { ledger_time },
        TransferFromError::Duplicate { duplicate_of } => TransferError::Duplicate { duplicate_of },
        TransferFromError::GenericError { error_code, message } => TransferError::GenericError { error_code, message },
        _ => TransferError::TemporarilyUnavailable,
    }
}
