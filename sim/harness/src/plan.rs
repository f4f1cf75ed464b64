//! A plan is one complete simulated execution: configuration, user actions and fault windows.  Running a plan is a
//! pure function; the plan as JSON is the replay file.
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Token {
    pub symbol: String,
    pub bits: u64,
    /// Registered at this simulated second (0 = right after install).
    pub at_s: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cfg {
    pub net: usize,
    /// 0 latest, 1 safe, 2 finalized
    pub tag: u8,
    pub min_wd: String,
    pub ledger_fee: String,
    pub dep_fee: String,
    pub wd_fee: String,
    pub nonce: u64,
    pub lag: u64,
    pub base_fee: u64,
    pub prio: u64,
    pub prio_min: u64,
    pub head0: u64,
    pub finality_s: u64,
    pub users: u64,
    pub tokens: Vec<Token>,
    pub block0: u64,
    pub key: String,
    pub native_bits: u64,
    /// Invalid installations tried before the real one.
    pub bad_inits: Vec<u8>,
    /// The installation names no helper contract; an upgrade at this time does.
    #[serde(default)]
    pub helper_at_s: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Form {
    Ok,
    Len0,
    Len30,
    Trailing,
    Anonymous,
    BadFrom,
    ShortData,
    LongData,
    ToMinter,
    OtherContract,
    Unsupported,
    BadToken,
    Removed,
    /// Returned without its place in the chain.
    Pending,
    /// One or two of the four topics are missing.
    FewTopics,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Amt {
    Abs(String),
    /// Thousandths of the caller's balance.
    Frac(u64),
    /// Minimum withdrawal plus this.
    Min(i64),
    /// Withdrawal fee plus this.
    Fee(i64),
    /// Twenty-one thousand gas at the current quote, plus this many gwei.
    Gas(i64),
    Huge,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Deposit { user: u64, sub: u64, token: i64, amt: String, form: Form, batch: bool },
    Approve { user: u64, token: i64, amt: String },
    Withdraw { user: u64, token: i64, amt: Amt, to: u64 },
    Scrape { delta: i64 },
    AddToken { variant: u8, n: u64 },
    Upgrade { spec: u64 },
    Restart,
    Shadow,
    Reorg { depth: u64 },
    Query { n: u64 },
    Junk { n: u64 },
    Move { user: u64, to: u64, sub: u64, token: i64, frac: u64 },
    DropMempool,
    Probe { n: u64 },
    /// That many strangers, paid by one user, withdraw at the same moment.
    Crowd { user: u64, n: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Act {
    pub at_ms: u64,
    pub op: Op,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum F {
    RpcReject,
    ProviderError,
    AllError,
    LagHead,
    Byz,
    TooFewCycles,
    LogsTooLarge,
    SendLost,
    SendEffectError,
    LedgerReject,
    LedgerTemp,
    LedgerGeneric,
    SignFail,
    /// A trap in the message that learns that the ledger has minted.
    TrapMint,
    PerformFail,
    Trap,
    SlowRpc,
    SlowLedger,
    SlowMgmt,
    LowCycles,
    Stall,
    TimerDelay,
    FeeSpike,
    StuckPool,
    LsmReject,
    KeyFail,
    StaleProvider,
    Reorder,
    Split,
    /// One provider alone says that the logs of certain blocks are too large, whatever else is asked with them.
    SizeLie,
    /// The network takes no transactions: too little money, or a nonce that is too high.
    SendRefused,
}
pub const FAULTS: [F; 29] = [
    F::RpcReject,
    F::ProviderError,
    F::AllError,
    F::LagHead,
    F::Byz,
    F::TooFewCycles,
    F::LogsTooLarge,
    F::SendLost,
    F::SendEffectError,
    F::LedgerReject,
    F::LedgerTemp,
    F::LedgerGeneric,
    F::SignFail,
    F::TrapMint,
    F::PerformFail,
    F::Trap,
    F::SlowRpc,
    F::SlowLedger,
    F::SlowMgmt,
    F::LowCycles,
    F::Stall,
    F::TimerDelay,
    F::FeeSpike,
    F::StuckPool,
    F::LsmReject,
    F::KeyFail,
    F::StaleProvider,
    F::Reorder,
    F::Split,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub kind: F,
    pub from_s: u64,
    pub to_s: u64,
    /// Per-mille probability per occasion inside the window.
    pub p: u64,
    pub salt: u64,
    pub arg: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub profile: String,
    pub cfg: Cfg,
    pub acts: Vec<Act>,
    pub faults: Vec<Fault>,
    pub active_s: u64,
    pub quiet_s: u64,
    /// Tenths of the configured fees that prevail once the faults have stopped.
    #[serde(default = "ten")]
    pub after: u64,
    /// Only the tips stay high, and nothing that offers less is included any more.
    #[serde(default)]
    pub tips_only: bool,
    /// First upgrade from this recorded state of the deployed minter.
    #[serde(default)]
    pub legacy: Option<u64>,
}
fn ten() -> u64 {
    10
}

fn gwei(n: u64) -> u64 {
    n * 1_000_000_000
}

/// Which emphasis a property gets in half of its runs.
pub fn profile_for(prop: &str) -> &'static str {
    match prop {
        "P01" | "P02" | "P19" => "deposits",
        "P03" => "hostile",
        "P04" | "P06" | "P07" | "P14" => "withdrawals",
        "P05" | "P10" => "failures",
        "P08" | "P11" => "endpoints",
        "P09" | "P20" | "P21" => "upgrades",
        "P12" | "P18" => "byzantine",
        "P13" => "registry",
        "P15" => "cycles",
        "P16" => "fees",
        "P17" => "scrape",
        _ => "general",
    }
}

pub fn generate(seed: u64, profile: &str) -> Plan {
    let mut r = Rng::new(h2(seed, 0x504c_414e));
    let net = r.below(10) as usize;
    let depth_net = matches!(net, 2 | 3 | 6 | 7 | 8 | 9);
    let tag = if depth_net { *r.pick(&[0u8, 0, 0, 1, 2]) } else { *r.pick(&[1u8, 2, 2]) };
    let ledger_fee: u64 = *r.pick(&[0u64, 1, 10_000, 2_000_000_000_000, 10_000_000_000_000]);
    let base_fee = *r.pick(&[1u64, 7, gwei(1), gwei(3), gwei(20), gwei(40)]);
    let prio_min = *r.pick(&[0u64, 1, gwei(1), 1_500_000_000, gwei(3), 37, 123_456_789]);
    let prio = *r.pick(&[0u64, 1, 19, gwei(1), gwei(2), gwei(5), 1_000_000_007, 3_333_333_333]);
    let quote = 21_000u128 * (2 * base_fee as u128 + prio.max(prio_min) as u128);
    // Now and then the ledger's fee is of the order of what a transaction costs.
    let ledger_fee = if r.chance(20) { (quote * 65 / 21 * *r.pick(&[30u128, 60, 80, 100, 130]) / 100) as u64 } else { ledger_fee };
    let min_wd = {
        let m = match r.below(4) {
            0 => (ledger_fee as u128).max(1),
            1 => ledger_fee as u128 + 1 + r.below(1000) as u128,
            2 => quote * 2 + ledger_fee as u128 + 1,
            _ => quote / 2 + ledger_fee as u128 + 1,
        };
        m
    };
    let wd_fee: u128 = match r.below(5) {
        0 | 1 => 0,
        2 => ledger_fee as u128 + r.below(3) as u128,
        3 => 2 * ledger_fee as u128 + r.below(5) as u128,
        _ => 5 * ledger_fee as u128 + 1_000_000 + r.below(1 << 40) as u128,
    };
    let dep_fee: u128 = match r.below(4) {
        0 | 1 => 0,
        2 => 1 + r.below(1000) as u128,
        _ => 1_000_000 + r.below(1 << 42) as u128,
    };
    let ntok = if profile == "registry" { 2 + r.below(2) } else { *r.pick(&[0u64, 1, 1, 2, 2, 3]) };
    let tokens = (0..ntok)
        .map(|i| Token {
            symbol: match r.below(4) {
                0 => format!("ckT{}", i),
                1 => format!("icTOKEN{}{}", i, "X".repeat(12)),
                2 => format!("T-{}.e", i),
                _ => format!("Sym{}", i),
            },
            bits: *r.pick(&[20u64, 64, 90, 130, 200, 251, 251]),
            at_s: if r.chance(70) { 0 } else { r.range(60, 1500) },
        })
        .collect::<Vec<_>>();
    let active_s = match profile {
        "upgrades" => r.range(1800, 4800),
        _ => r.range(1500, 5400),
    };
    let users = r.range(2, 5);
    let mut cfg = Cfg {
        net,
        tag,
        min_wd: min_wd.to_string(),
        ledger_fee: ledger_fee.to_string(),
        dep_fee: dep_fee.to_string(),
        wd_fee: wd_fee.to_string(),
        nonce: *r.pick(&[0u64, 0, 1, 7, 127, 128, 255, 256, 65_535, 1 << 33]),
        lag: *r.pick(&[20u64, 60, 300, 1500, 2600]),
        base_fee,
        prio,
        prio_min,
        head0: *r.pick(&[3_000u64, 65_000, 5_000_000, 21_000_000, 4_294_967_200]),
        finality_s: *r.pick(&[60u64, 200, 780]),
        users,
        tokens,
        block0: *r.pick(&[0u64, 0, 1, 23, 24, 255, 65_536, 5_000_000_000]),
        key: r.pick(&["key_1", "dfx_test_key", "test_key_1"]).to_string(),
        native_bits: *r.pick(&[70u64, 70, 90, 110, 160, 250]),
        bad_inits: if r.chance(40) { vec![r.below(16) as u8, r.below(16) as u8] } else { vec![] },
        helper_at_s: 0,
    };
    if ledger_fee == 0 && r.chance(50) {
        cfg.min_wd = "1".into();
    }
    let mut acts: Vec<Act> = vec![];
    let end_ms = active_s * 1000;
    let rich = |r: &mut Rng, q: u128| -> String {
        // Enough for several withdrawals, bit length varied.
        let x = wild(r.next(), 70);
        (x + big(q * 40 + 1_000_000_000_000_000)).to_string()
    };
    // Funding that is already on the chain when the minter starts.
    for u in 0..users {
        let n = r.range(1, 2);
        for _ in 0..n {
            let amt = if r.chance(25) {
                (wild(r.next(), cfg.native_bits) + bigs(&rich(&mut r, quote))).to_string()
            } else {
                rich(&mut r, quote)
            };
            acts.push(Act { at_ms: 0, op: Op::Deposit { user: u, sub: 0, token: -1, amt, form: Form::Ok, batch: r.chance(30) } });
        }
        for t in 0..ntok {
            if cfg.tokens[t as usize].at_s == 0 {
                let bits = cfg.tokens[t as usize].bits;
                acts.push(Act {
                    at_ms: r.range(200, 4000),
                    op: Op::Deposit { user: u, sub: 0, token: t as i64, amt: (wild(r.next(), bits) + 1_000u32).to_string(), form: Form::Ok, batch: false },
                });
            }
        }
    }
    let weights: &[(u64, &str)] = match profile {
        "deposits" => &[(50, "dep"), (6, "bad"), (10, "wd"), (10, "scrape"), (4, "up"), (2, "restart"), (6, "reorg"), (5, "query"), (2, "shadow"), (5, "addtok")],
        "hostile" => &[(25, "dep"), (40, "bad"), (10, "wd"), (8, "scrape"), (3, "up"), (1, "restart"), (3, "reorg"), (5, "query"), (2, "junk"), (5, "addtok")],
        "withdrawals" => &[(10, "dep"), (1, "bad"), (60, "wd"), (3, "up"), (2, "restart"), (4, "reorg"), (10, "query"), (3, "shadow"), (4, "drop"), (3, "move")],
        "failures" => &[(10, "dep"), (70, "wd"), (3, "up"), (2, "restart"), (6, "query"), (2, "reorg"), (3, "drop")],
        "endpoints" => &[(8, "dep"), (60, "wd"), (10, "approve"), (6, "junk"), (3, "scrape"), (2, "up"), (6, "move"), (5, "query"), (2, "addtok")],
        "upgrades" => &[(15, "dep"), (3, "bad"), (25, "wd"), (25, "up"), (5, "restart"), (10, "shadow"), (8, "query"), (5, "addtok"), (2, "reorg"), (2, "probe")],
        "byzantine" => &[(35, "dep"), (4, "bad"), (25, "wd"), (14, "scrape"), (2, "up"), (14, "reorg"), (4, "query")],
        "registry" => &[(25, "dep"), (6, "bad"), (20, "wd"), (25, "addtok"), (6, "scrape"), (6, "up"), (4, "junk"), (6, "query")],
        "cycles" => &[(20, "dep"), (40, "wd"), (15, "scrape"), (3, "up"), (5, "query")],
        "fees" => &[(12, "dep"), (55, "wd"), (20, "query"), (3, "up"), (3, "drop")],
        "scrape" => &[(30, "dep"), (5, "wd"), (45, "scrape"), (3, "up"), (3, "restart"), (8, "reorg"), (4, "query")],
        _ => &[(25, "dep"), (6, "bad"), (35, "wd"), (6, "scrape"), (5, "up"), (2, "restart"), (4, "reorg"), (8, "query"), (3, "shadow"), (3, "approve"), (3, "move"), (3, "addtok"), (2, "junk"), (1, "drop"), (1, "probe")],
    };
    let total: u64 = weights.iter().map(|w| w.0).sum();
    let n_acts = r.range(10, 55);
    let burst = r.chance(30);
    for _ in 0..n_acts {
        let mut at_ms = if burst && r.chance(60) {
            (active_s * 1000 / 3) + r.below(60_000)
        } else {
            30_000 + r.below(end_ms - 30_000)
        };
        let mut x = r.below(total);
        let kind = weights.iter().find(|w| if x < w.0 { true } else { x -= w.0; false }).unwrap().1;
        let user = r.below(users);
        let pick_tok = |r: &mut Rng| -> i64 {
            if ntok == 0 || r.chance(45) {
                -1
            } else {
                r.below(ntok) as i64
            }
        };
        let op = match kind {
            "dep" => {
                let token = pick_tok(&mut r);
                let bits = if token < 0 { cfg.native_bits } else { cfg.tokens[token as usize].bits };
                let amt = if token < 0 && r.chance(60) { rich(&mut r, quote) } else { (wild(r.next(), bits) + 1u32).to_string() };
                let form = if r.chance(3) { Form::ToMinter } else { Form::Ok };
                Op::Deposit { user, sub: if r.chance(60) { 0 } else { r.range(1, 4) }, token, amt, form, batch: r.chance(25) }
            }
            "bad" => {
                let token = pick_tok(&mut r);
                let form = r
                    .pick(&[
                        Form::Len0,
                        Form::Len30,
                        Form::Trailing,
                        Form::Anonymous,
                        Form::BadFrom,
                        Form::ShortData,
                        Form::LongData,
                        Form::OtherContract,
                        Form::Unsupported,
                        Form::Unsupported,
                        Form::BadToken,
                        Form::Removed,
                        Form::Pending,
                        Form::FewTopics,
                        Form::Ok,
                        Form::Ok,
                    ])
                    .clone();
                // A well-formed one here is dust, or just about covers the fee.
                let amt = if form == Form::Ok && r.chance(60) {
                    (dep_fee + r.below(3) as u128).saturating_sub(1).to_string()
                } else if form == Form::Ok {
                    r.below(3).to_string()
                } else { (wild(r.next(), 70) + 1u32).to_string() };
                Op::Deposit { user, sub: r.below(3), token, amt, form, batch: r.chance(30) }
            }
            "wd" => {
                let token = if r.chance(4) { 90 } else { pick_tok(&mut r) };
                let amt = match r.below(12) {
                    0 => Amt::Min(-1),
                    1 => Amt::Min(0),
                    2 => Amt::Min(r.below(1000) as i64),
                    3 => Amt::Fee(r.below(4) as i64 - 2),
                    4 => Amt::Gas(r.below(2000) as i64 - 1000),
                    5 => Amt::Frac(1000),
                    6 => Amt::Frac(1001),
                    7 => {
                        if r.chance(20) {
                            Amt::Huge
                        } else {
                            Amt::Abs(wild(r.next(), 60).to_string())
                        }
                    }
                    _ => Amt::Frac(r.range(5, 300)),
                };
                let to = if r.chance(if profile == "failures" { 50 } else { 5 }) { r.range(40, 60) } else { r.below(40) };
                Op::Withdraw { user: if r.chance(2) { 99 } else { user }, token, amt, to }
            }
            "approve" => Op::Approve { user, token: pick_tok(&mut r), amt: if r.chance(50) { wild(r.next(), 60).to_string() } else { rich(&mut r, quote) } },
            "scrape" => Op::Scrape { delta: *r.pick(&[-1i64, 0, 1, 1, 5, 50, i64::MAX]) },
            "addtok" => Op::AddToken { variant: r.below(14) as u8, n: r.next() % 1000 },
            "up" => Op::Upgrade { spec: r.next() % 100_000 },
            "restart" => Op::Restart,
            "shadow" => Op::Shadow,
            "reorg" => Op::Reorg { depth: r.range(1, 19) },
            "query" => Op::Query { n: r.next() % 1000 },
            "junk" => Op::Junk { n: r.next() % 1000 },
            "move" => Op::Move { user, to: r.below(users), sub: r.below(3), token: pick_tok(&mut r), frac: r.range(1, 1000) },
            "drop" => Op::DropMempool,
            "probe" => Op::Probe { n: r.next() % 1000 },
            _ => unreachable!(),
        };
        if matches!(op, Op::Upgrade { .. } | Op::Restart) {
            at_ms = at_ms.max(60_000);
        }
        acts.push(Act { at_ms, op: op.clone() });
        // Follow-ups that provoke races.
        if let Op::Withdraw { user, token, .. } = &op {
            if r.chance(15) {
                acts.push(Act {
                    at_ms: at_ms + r.below(9000),
                    op: Op::Withdraw { user: *user, token: if r.chance(50) { *token } else { -1 }, amt: Amt::Frac(r.range(5, 600)), to: r.below(40) },
                });
            }
        }
        if matches!(op, Op::Deposit { .. }) && r.chance(20) {
            acts.push(Act { at_ms: at_ms + 70_000 + r.below(400_000), op: Op::Scrape { delta: 1 } });
        }
        if matches!(op, Op::Upgrade { .. }) && r.chance(50) {
            acts.push(Act { at_ms: at_ms.saturating_sub(r.below(20_000)), op: Op::Withdraw { user, token: pick_tok(&mut r), amt: Amt::Frac(50), to: r.below(40) } });
        }
    }
    // Crowds: more callers at once than the minter serves.
    let mut rc = Rng::new(h2(seed, 0xc40d));
    let share = match profile {
        "endpoints" => 10,
        "withdrawals" | "general" | "failures" => 2,
        _ => 0,
    };
    if rc.chance(share) {
        let user = rc.below(users);
        let each = bigs(&cfg.min_wd) + big(wd_fee + 6 * ledger_fee as u128 + 2 + 10 * quote);
        acts.push(Act { at_ms: 0, op: Op::Deposit { user, sub: 0, token: -1, amt: (each * 420u32 + big(dep_fee)).to_string(), form: Form::Ok, batch: false } });
        let at_ms = rc.range(120_000, end_ms - 600_000);
        acts.push(Act { at_ms, op: Op::Crowd { user, n: rc.range(60, 140) } });
        if rc.chance(60) {
            let at_ms = at_ms + rc.range(500, 60_000);
            acts.push(Act { at_ms, op: Op::Crowd { user, n: rc.range(30, 140) } });
        }
        if rc.chance(40) {
            acts.push(Act { at_ms: at_ms + rc.range(100_000, 500_000), op: Op::Crowd { user, n: rc.range(5, 90) } });
        }
    }
    acts.sort_by_key(|a| a.at_ms);

    let mut faults: Vec<Fault> = vec![];
    let nf = if r.chance(12) { 0 } else { r.range(1, 9) };
    let favour: &[F] = match profile {
        "deposits" => &[F::LedgerReject, F::LedgerTemp, F::LogsTooLarge, F::Trap, F::TrapMint, F::ProviderError, F::SlowLedger, F::StaleProvider],
        "hostile" => &[F::LedgerTemp, F::LogsTooLarge, F::Trap, F::ProviderError],
        "withdrawals" => &[F::FeeSpike, F::FeeSpike, F::Split, F::SignFail, F::SendLost, F::SendEffectError, F::StuckPool, F::LedgerTemp, F::Trap, F::ProviderError, F::StaleProvider],
        "failures" => &[F::FeeSpike, F::FeeSpike, F::FeeSpike, F::Split, F::StuckPool, F::StuckPool, F::LedgerTemp, F::LedgerGeneric, F::LedgerReject, F::SendLost, F::Trap, F::TrapMint],
        "endpoints" => &[F::LedgerReject, F::LedgerTemp, F::LedgerGeneric, F::PerformFail, F::SlowLedger, F::Stall],
        "upgrades" => &[F::FeeSpike, F::SlowRpc, F::SlowLedger, F::Trap, F::LedgerTemp],
        "byzantine" => &[F::Byz, F::Byz, F::StaleProvider, F::LagHead, F::ProviderError, F::Split, F::Split],
        "cycles" => &[F::TooFewCycles, F::TooFewCycles, F::LowCycles],
        "fees" => &[F::FeeSpike, F::FeeSpike, F::SlowRpc, F::ProviderError, F::Split, F::LagHead],
        "scrape" => &[F::LagHead, F::SlowRpc, F::LogsTooLarge, F::TimerDelay, F::RpcReject, F::AllError],
        _ => &FAULTS,
    };
    for _ in 0..nf {
        let kind = if r.chance(55) { *r.pick(favour) } else { *r.pick(&FAULTS) };
        let mut from_s = r.below(active_s);
        if kind == F::LogsTooLarge && from_s % 2 == 0 {
            from_s = 0; // while the minter catches up
        }
        let len = match r.below(3) {
            0 => r.range(20, 120),
            1 => r.range(100, 900),
            _ => r.range(300, active_s),
        };
        faults.push(Fault {
            kind,
            from_s,
            to_s: (from_s + len).min(active_s),
            p: *r.pick(&[50u64, 200, 500, 1000]),
            salt: r.next() % 1_000_000,
            arg: r.next() % 1_000_000,
        });
    }
    if profile == "failures" && h2(seed, 0x7a9e) % 3 == 0 {
        faults.insert(0, Fault { kind: F::TrapMint, from_s: 0, to_s: active_s, p: 350, salt: seed % 1_000_000, arg: seed % 500 * 2 });
    }
    let mut rl = Rng::new(h2(seed, 0x512e));
    let share = match profile {
        "byzantine" => 20,
        "deposits" | "scrape" | "general" => 6,
        _ => 0,
    };
    if rl.chance(share) {
        let from_s = if rl.chance(60) { 0 } else { rl.below(active_s) };
        let to_s = (from_s + rl.range(600, active_s)).min(active_s);
        faults.push(Fault { kind: F::SizeLie, from_s, to_s, p: *rl.pick(&[300u64, 1000]), salt: rl.next() % 1_000_000, arg: 0 });
    }
    let mut ry = Rng::new(h2(seed, 0x5e4d));
    if matches!(profile, "withdrawals" | "failures" | "general" | "byzantine" | "fees") && ry.chance(8) {
        let from_s = ry.below(active_s);
        let to_s = (from_s + ry.range(60, 1500)).min(active_s);
        faults.push(Fault { kind: F::SendRefused, from_s, to_s, p: *ry.pick(&[300u64, 1000]), salt: ry.next() % 1_000_000, arg: ry.next() % 1_000_000 });
    }
    let mut rh = Rng::new(h2(seed, 0x8e19));
    if matches!(profile, "general" | "upgrades" | "deposits" | "scrape" | "registry") && rh.chance(6) {
        cfg.helper_at_s = if rh.chance(30) { 1 } else { rh.range(30, active_s / 2) };
    }
    // A fee rise during which nothing can be signed: what was to be replaced may be mined after all.
    let mut rs = Rng::new(h2(seed, 0x51f));
    if matches!(profile, "withdrawals" | "general" | "failures") && rs.chance(12) {
        let t = rs.range(120, active_s - 900);
        for user in 0..users {
            acts.push(Act { at_ms: t * 1000 + rs.below(5000), op: Op::Withdraw { user, token: -1, amt: Amt::Frac(rs.range(50, 400)), to: rs.below(40) } });
        }
        acts.sort_by_key(|a| a.at_ms);
        let from_s = t + rs.range(25, 100);
        let to_s = from_s + rs.range(60, 240);
        let arg = rs.range(3, 5);
        faults.insert(0, Fault { kind: F::FeeSpike, from_s, to_s, p: 1000, salt: 0, arg });
        faults.insert(0, Fault { kind: F::SignFail, from_s: from_s + rs.range(5, 30), to_s: to_s + rs.range(100, 1200), p: 1000, salt: 0, arg: 0 });
    }
    // Fees may stay high for good: whoever cannot pay them waits, everyone else must still be served.
    let mut after = 10;
    let mut tips_only = false;
    if matches!(profile, "withdrawals" | "general" | "fees") && r.chance(25) {
        after = *r.pick(&[20u64, 40, 100]);
        tips_only = h2(seed, 0x7195) % 3 == 0;
        let t = r.range(120, active_s - 900);
        let toks: Vec<i64> = (0..ntok as i64).filter(|t| cfg.tokens[*t as usize].at_s == 0).collect();
        if !toks.is_empty() && r.chance(70) {
            for round in 0..r.range(1, 3) {
                for user in 0..users {
                    let at_ms = t * 1000 + round * 15_000 + r.below(2000);
                    acts.push(Act { at_ms, op: Op::Withdraw { user, token: *r.pick(&toks), amt: Amt::Frac(r.range(5, 200)), to: r.below(40) } });
                }
            }
            for user in 0..users {
                acts.push(Act { at_ms: (t + r.range(60, 700)) * 1000, op: Op::Withdraw { user, token: -1, amt: Amt::Frac(r.range(200, 900)), to: r.below(40) } });
            }
        }
        acts.sort_by_key(|a| a.at_ms);
        let from_s = t + r.range(20, 60);
        // `arg` selects the factor (see world.rs) for both fees.
        let arg = match after {
            20 => 3,
            40 => 4,
            _ => 5,
        } + if tips_only { 24 } else { 0 };
        faults.insert(0, Fault { kind: F::FeeSpike, from_s, to_s: active_s, p: 1000, salt: 0, arg });
    }
    Plan { seed, profile: profile.to_string(), cfg, acts, faults, active_s, quiet_s: 5400, after, tips_only, legacy: None }
}
