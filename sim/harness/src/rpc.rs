//! The EVM RPC canister and its providers (simulated peers).
use crate::chain::*;
use crate::plan::{Fault, Form, F};
use crate::replica::Response;
use crate::util::*;
use crate::world::*;
use candid::{CandidType, Decode, Encode};
use evm_rpc_types::*;
use num_bigint::BigUint;
use ic_cdk::api::call::RejectionCode;

pub const METHODS: [&str; 6] =
    ["eth_getBlockByNumber", "eth_getLogs", "eth_feeHistory", "eth_getTransactionReceipt", "eth_getTransactionCount", "eth_sendRawTransaction"];

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Block(BlockTag),
    Logs(GetLogsArgs),
    Fee(FeeHistoryArgs),
    Receipt(String),
    Count(GetTransactionCountArgs),
    Send(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct RpcReq {
    pub chain_id: u64,
    pub services: Vec<RpcApi>,
    pub config: Option<RpcConfig>,
    pub req: Req,
}

pub fn decode(method: &str, arg: &[u8]) -> Result<RpcReq, String> {
    macro_rules! d {
        ($t:ty, $v:path) => {{
            let (s, c, a) = Decode!(arg, RpcServices, Option<RpcConfig>, $t).map_err(|e| e.to_string())?;
            (s, c, $v(a))
        }};
    }
    let (s, config, req) = match method {
        "eth_getBlockByNumber" => d!(BlockTag, Req::Block),
        "eth_getLogs" => d!(GetLogsArgs, Req::Logs),
        "eth_feeHistory" => d!(FeeHistoryArgs, Req::Fee),
        "eth_getTransactionReceipt" => d!(String, Req::Receipt),
        "eth_getTransactionCount" => d!(GetTransactionCountArgs, Req::Count),
        "eth_sendRawTransaction" => d!(String, Req::Send),
        _ => return Err(format!("unknown method {}", method)),
    };
    match s {
        RpcServices::Custom { chain_id, services } => Ok(RpcReq { chain_id, services, config, req }),
        other => Err(format!("unexpected providers {:?}", other)),
    }
}

/// What a delivered response really says, for the oracles.
#[derive(Clone, Debug, Default)]
pub enum Facts {
    #[default]
    Nothing,
    /// The provider side asked for more cycles; the largest amount asked for.
    TooFew(u128),
    /// The call got no usable answer.
    Failed,
    Block(u64),
    Logs {
        from: u64,
        to: u64,
        /// Logs every honest answer agreed on.
        agreed: Option<Vec<Key>>,
        /// How many providers refused for the size of the answer.
        too_large: usize,
        /// Canonical deposits in the range at that moment (indices into the chain's list).
        truth: Vec<usize>,
    },
    Fee {
        base: BigUint,
        rewards: Vec<u64>,
    },
    Receipt {
        hash: [u8; 32],
        found: Option<Option<Mined>>,
    },
    Count {
        finalized: bool,
        n: u64,
        /// The providers' answers differed.
        disputed: bool,
    },
    Sent,
    LedgerOk(u64),
    LedgerErr(crate::types::TransferFromError),
    Signed,
    Key,
    Lsm,
}

type Answers<T> = Vec<(RpcApi, RpcResult<T>)>;

fn multi<T: CandidType + PartialEq + Clone>(a: Answers<T>) -> Vec<u8> {
    let first = a[0].1.clone();
    let r = if a.iter().all(|x| x.1 == first) {
        MultiRpcResult::Consistent(first)
    } else {
        MultiRpcResult::Inconsistent(a.into_iter().map(|(api, r)| (RpcService::Custom(api), r)).collect())
    };
    Encode!(&r).unwrap()
}
/// The value a careful client may use: all equal, or at least two successes which agree.
fn agreed<T: PartialEq + Clone>(a: &Answers<T>) -> Option<T> {
    let ok: Vec<&T> = a.iter().filter_map(|x| x.1.as_ref().ok()).collect();
    let first = *ok.first()?;
    let same = ok.iter().all(|x| *x == first);
    if same && (ok.len() == a.len() || ok.len() >= 2) {
        Some(first.clone())
    } else {
        None
    }
}

/// The fee history more than half of the voters agree on; voters who answer for the same blocks must agree.
fn majority(a: &Answers<Option<FeeHistory>>) -> Option<FeeHistory> {
    let same = |x: &FeeHistory, y: &FeeHistory| x.base_fee_per_gas == y.base_fee_per_gas && x.reward == y.reward;
    let ok: Vec<&FeeHistory> = a.iter().filter_map(|x| x.1.as_ref().ok().and_then(|h| h.as_ref())).collect();
    if ok.is_empty() || (ok.len() < 2 && a.len() > 1) {
        return None;
    }
    let mut groups: Vec<(Nat256, Vec<&FeeHistory>)> = vec![];
    for h in ok {
        match groups.iter_mut().find(|g| g.0 == h.oldest_block) {
            Some(g) => {
                if !same(g.1[0], h) {
                    return None;
                }
                g.1.push(h);
            }
            None => groups.push((h.oldest_block.clone(), vec![h])),
        }
    }
    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
    if groups.len() > 1 && groups[0].1.len() == groups[1].1.len() {
        return None;
    }
    Some(groups[0].1[0].clone())
}

pub fn provider_index(url: &str) -> usize {
    if url.contains("llamarpc") {
        0
    } else if url.contains("ankr") {
        1
    } else {
        2
    }
}

pub fn n256(x: u64) -> Nat256 {
    Nat256::from(x)
}
pub fn b256(x: &num_bigint::BigUint) -> Nat256 {
    Nat256::try_from(nat(x)).unwrap_or(Nat256::ZERO)
}

impl World<'_> {
    fn provider_error(&self, k: u64) -> RpcError {
        match k % 7 {
            4 => RpcError::ProviderError(ProviderError::MissingRequiredProvider),
            5 => RpcError::ProviderError(ProviderError::ProviderNotFound),
            6 => RpcError::ValidationError(ValidationError::Custom("simulated validation failure".into())),
            0 => RpcError::JsonRpcError(JsonRpcError { code: -32000, message: "header not found".into() }),
            1 => RpcError::HttpOutcallError(HttpOutcallError::IcError { code: RejectionCode::SysTransient, message: "No consensus could be reached. Replicas had different responses.".into() }),
            2 => RpcError::HttpOutcallError(HttpOutcallError::InvalidHttpJsonRpcResponse { status: 429, body: "Too many requests".into(), parsing_error: None }),
            _ => RpcError::HttpOutcallError(HttpOutcallError::IcError { code: RejectionCode::SysFatal, message: "Timeout expired".into() }),
        }
    }

    /// The one provider that may be wrong in this run.
    pub fn bad_provider(&self) -> usize {
        (h2(self.plan.seed, 0xbad) % 3) as usize
    }

    /// Executes a request at the EVM RPC canister; returns the response, the refund and what it says.
    pub fn rpc(&mut self, method: &str, r: &RpcReq, cycles: u128, ord: u64) -> (Response, u128, Facts) {
        let key = hs(self.plan.seed, method, ord);
        if self.fault(F::RpcReject, key) {
            let code = [2, 3, 4, 5][(key >> 9) as usize % 4];
            return (Response::Reject(code, "simulated reject".into()), cycles, Facts::Failed);
        }
        if r.services.is_empty() {
            return (Response::Reject(5, "no services".into()), cycles, Facts::Failed);
        }
        if let Some(f) = self.fault_window(F::TooFewCycles, key) {
            let need = 30_000_000_000u128 << (f.arg % 13);
            if cycles < need {
                let n = r.services.len() as u64;
                let variant = (f.arg / 13) % 5;
                let mut max = 0;
                let errs: Vec<(RpcApi, Option<u128>)> = r
                    .services
                    .iter()
                    .enumerate()
                    .map(|(i, s)| {
                        let e = match variant {
                            0 => Some(need),
                            // Never asks for more than a little extra.
                            3 => Some((cycles + 1 + i as u128).min(need)),
                            1 => Some(need - (i as u128) * (need / 7)),
                            // Names no more than it got.
                            4 => Some(cycles - i as u128),
                            _ if n > 1 && i as u64 == (f.arg / 52) % n => None,
                            _ => Some(need),
                        };
                        max = max.max(e.unwrap_or(0));
                        (s.clone(), e)
                    })
                    .collect();
                if max > cycles || variant == 4 {
                    let resp = self.too_few(method, r, errs, cycles);
                    return (Response::Reply(resp), cycles, Facts::TooFew(max));
                }
            }
        }
        let cost = 5_000_000_000u128 * r.services.len() as u128;
        let refund = cycles.saturating_sub(cost);
        // The RPC canister may report the answers of several providers where the minter named one.
        let split = r.services.len() == 1 && self.fault(F::Split, key);
        let wide;
        let r = if split {
            let mut v: Vec<RpcApi> = ["https://eth.llamarpc.com/x", "https://rpc.ankr.com/x", "https://x.publicnode.com"]
                .iter()
                .map(|u| RpcApi { url: u.to_string(), headers: None })
                .collect();
            v.rotate_left((key >> 20) as usize % 3);
            wide = RpcReq { services: v, ..r.clone() };
            &wide
        } else {
            r
        };
        // In half of the windows the same error persists.
        let kind = |f: &Fault, k: u64| if f.arg % 2 == 0 { f.arg / 2 } else { k >> 7 };
        let all_err = self.fault_window(F::AllError, key).map(|f| self.provider_error(kind(&f, key)));
        let mut errs: Vec<Option<RpcError>> = vec![];
        for s in &r.services {
            let p = provider_index(&s.url) as u64;
            let k = h2(key, p + 1);
            errs.push(match &all_err {
                Some(e) => Some(e.clone()),
                None => self.fault_window(F::ProviderError, k).map(|f| self.provider_error(kind(&f, k))),
            });
        }
        let t = self.now;
        self.chain.advance(t);
        let bad = self.bad_provider();
        let lag = |w: &Self, s: &RpcApi| -> u64 {
            if provider_index(&s.url) != bad {
                return 0;
            }
            match w.fault_window(F::LagHead, h2(key, 0x1a6)).or_else(|| w.fault_window(F::StaleProvider, h2(key, 0x57a))) {
                Some(f) => (1 + f.arg % 400) * 1_000_000_000,
                None => 0,
            }
        };
        macro_rules! answers {
            ($t:ty, $f:expr) => {{
                let mut out: Answers<$t> = vec![];
                for (i, s) in r.services.iter().enumerate() {
                    let v: RpcResult<$t> = match &errs[i] {
                        Some(e) => Err(e.clone()),
                        None => {
                            #[allow(unused_mut)]
                            let mut g = $f;
                            g(self, s)
                        }
                    };
                    out.push((s.clone(), v));
                }
                out
            }};
        }
        let (bytes, facts) = match &r.req {
            Req::Block(tag) => {
                let a = answers!(Block, |w: &mut Self, s: &RpcApi| {
                    let lt = t - lag(w, s);
                    let n = match w.head_of(tag, lt) {
                        Some(n) => n,
                        None => return Err(RpcError::JsonRpcError(JsonRpcError { code: -32602, message: "unsupported tag".into() })),
                    };
                    Ok(w.block(n))
                });
                let f = agreed(&a).map_or(Facts::Failed, |b| Facts::Block(nat64(b.number.as_ref())));
                (multi(a), f)
            }
            Req::Count(c) => {
                let minter = self.minter_addr;
                let a = answers!(Nat256, |w: &mut Self, s: &RpcApi| {
                    let lt = t - lag(w, s);
                    let h = match w.head_of(&c.block, lt) {
                        Some(n) => n,
                        None => return Err(RpcError::JsonRpcError(JsonRpcError { code: -32602, message: "unsupported tag".into() })),
                    };
                    let a: [u8; 20] = c.address.clone().into();
                    if Some(a) != minter {
                        return Ok(n256(0));
                    }
                    let mut n = w.chain.count_at(h, t);
                    if split && provider_index(&s.url) == bad && w.fault(F::Byz, h2(key, 5)) {
                        w.byz += 1;
                        n += 1 + (key >> 5) % 3;
                    }
                    Ok(n256(n))
                });
                let finalized = c.block == BlockTag::Finalized;
                let low = a.iter().filter_map(|x| x.1.as_ref().ok()).map(|n| nat64(n.as_ref())).min();
                let usable = a.iter().filter(|x| x.1.is_ok()).count() >= 2 || a.len() == 1;
                let n = if finalized { agreed(&a).map(|n| nat64(n.as_ref())) } else { low.filter(|_| usable) };
                let f = n.map_or(Facts::Failed, |n| Facts::Count { finalized, n, disputed: a.iter().any(|x| x.1.as_ref().ok().map(|n| nat64(n.as_ref())) != low) });
                (multi(a), f)
            }
            Req::Fee(q) => {
                let a = answers!(Option<FeeHistory>, |w: &mut Self, s: &RpcApi| {
                    let lt = t - lag(w, s);
                    if w.fault(F::ProviderError, h2(key, 0xfee)) && key % 3 == 0 {
                        return Ok(None);
                    }
                    if split && (key >> 9) % 4 == 0 && provider_index(&s.url) == (bad + 1) % 3 {
                        return Err(w.provider_error(key >> 11));
                    }
                    let mut h = w.fees(q, lt);
                    // A young or pruned node knows fewer blocks than it was asked for.
                    if (key >> 20) % 16 == 0 {
                        let cut = (key >> 24) as usize % h.reward.len();
                        h.oldest_block = n256(nat64(h.oldest_block.as_ref()) + cut as u64);
                        h.base_fee_per_gas.drain(..cut);
                        h.gas_used_ratio.drain(..cut);
                        h.reward.drain(..cut);
                    }
                    // Answers no estimate can be made of.
                    if w.fault(F::ProviderError, h2(key, 0xfef)) {
                        match (key >> 28) % 6 {
                            0 => h.reward.clear(),
                            1 => h.reward.iter_mut().for_each(|r| r.clear()),
                            2 => h.base_fee_per_gas.clear(),
                            3 => h.base_fee_per_gas.iter_mut().for_each(|b| *b = b256(&(BigUint::from(1u8) << [255usize, 120][(key >> 32) as usize % 2]))),
                            _ => {}
                        }
                    }
                    if split && provider_index(&s.url) == bad && w.fault(F::Byz, h2(key, 6)) {
                        w.byz += 1;
                        let k = key >> 5;
                        if k % 2 == 0 {
                            h.oldest_block = n256(nat64(h.oldest_block.as_ref()) + k % 3);
                        }
                        h.base_fee_per_gas = h.base_fee_per_gas.iter().map(|b| b256(&(&b.as_ref().0 % (BigUint::from(1u8) << 250u32) * BigUint::from(2 + k % 5)))).collect();
                    }
                    Ok(Some(h))
                });
                let f = match majority(&a) {
                    Some(h) => {
                        let rewards: Vec<u64> = h.reward.iter().flatten().map(|x| nat64(x.as_ref())).collect();
                        let top = BigUint::from(rewards.iter().max().cloned().unwrap_or(0)).max(self.conf.prio_min.clone());
                        match h.base_fee_per_gas.last().map(|b| b.as_ref().0.clone()) {
                            // No estimate can be made of an empty or an overflowing history.
                            Some(base) if !rewards.is_empty() && (&base * 2u8 + top).bits() <= 256 => Facts::Fee { base, rewards },
                            _ => Facts::Failed,
                        }
                    }
                    _ => Facts::Failed,
                };
                (multi(a), f)
            }
            Req::Receipt(hs_) => {
                let hash: [u8; 32] = unhex(hs_).and_then(|b| b.as_slice().try_into().ok()).unwrap_or([0; 32]);
                let a = answers!(Option<TransactionReceipt>, |w: &mut Self, s: &RpcApi| {
                    let m = w.chain.receipt(&hash, t);
                    let mut rc = m.map(|m| w.receipt(&m));
                    if provider_index(&s.url) == bad {
                        if let Some(f) = w.fault_window(F::Byz, h2(key, 3)) {
                            w.byz += 1;
                            rc = w.lie_receipt(rc, &hash, f.arg ^ key);
                        }
                    }
                    Ok(rc)
                });
                let found = agreed(&a).map(|_| self.chain.receipt(&hash, t));
                (multi(a), Facts::Receipt { hash, found })
            }
            Req::Send(raw) => {
                let tx = unhex(raw).ok_or("bad hex".to_string()).and_then(|b| decode_tx(&b));
                let lost = self.fault(F::SendLost, key);
                let after = self.fault(F::SendEffectError, key);
                let refused = self.fault_window(F::SendRefused, key).map(|f| f.arg);
                // Only providers that answered have seen it.
                let reached = errs.iter().any(|e| e.is_none());
                let sent = match tx {
                    Ok(tx) if reached && !lost && refused.is_none() => self.chain.send(tx, t),
                    Ok(_) => Sent::Ok,
                    Err(_) => Sent::Error("rlp: malformed transaction"),
                };
                self.sends += 1;
                let a = answers!(SendRawTransactionStatus, |w: &mut Self, s: &RpcApi| {
                    let p = provider_index(&s.url);
                    let status = |k: u64| match k % 4 {
                        0 => SendRawTransactionStatus::InsufficientFunds,
                        1 => SendRawTransactionStatus::NonceTooHigh,
                        2 => SendRawTransactionStatus::NonceTooLow,
                        _ => SendRawTransactionStatus::Ok(Some(Hex32::from([k as u8; 32]))),
                    };
                    if p == bad && w.fault(F::Byz, h2(key, 7)) {
                        w.byz += 1;
                        return Ok(status(key >> 9));
                    }
                    if let Some(arg) = refused {
                        return Ok(status(arg % 2));
                    }
                    if after {
                        return Err(RpcError::HttpOutcallError(HttpOutcallError::IcError { code: RejectionCode::SysTransient, message: "Timeout expired".into() }));
                    }
                    match &sent {
                        Sent::Ok | Sent::Known => Ok(SendRawTransactionStatus::Ok(if key % 2 == 0 {
                            unhex(raw).map(|b| Hex32::from(keccak(&b)))
                        } else {
                            None
                        })),
                        Sent::NonceTooLow => Ok(SendRawTransactionStatus::NonceTooLow),
                        Sent::Insufficient => Ok(SendRawTransactionStatus::InsufficientFunds),
                        Sent::Error(m) => Err(RpcError::JsonRpcError(JsonRpcError { code: -32000, message: m.to_string() })),
                    }
                });
                (multi(a), Facts::Sent)
            }
            Req::Logs(q) => {
                let (from, to) = (self.number(&q.from_block, t), self.number(&q.to_block, t));
                let big_limit = self.fault_window(F::LogsTooLarge, hs(self.plan.seed, "size", from ^ (to << 20))).map(|f| ((f.arg % 4) as usize, f.arg / 4));
                let truth: Vec<usize> = (0..self.chain.deps.len())
                    .filter(|i| {
                        let d = &self.chain.deps[*i];
                        d.canonical && d.block >= from && d.block <= to && d.at <= t
                    })
                    .collect();
                let logs = self.logs(q, from, to, t);
                let n = logs.len();
                let mut too_large = 0;
                let a = answers!(Vec<LogEntry>, |w: &mut Self, s: &RpcApi| {
                    let p = provider_index(&s.url);
                    if p == bad && n > 0 && truth.iter().any(|i| w.fault(F::SizeLie, w.chain.deps[*i].block)) {
                        // A lie about the size, kept up until the range is a single block.
                        w.byz += 1;
                        too_large += 1;
                        return Err(RpcError::HttpOutcallError(HttpOutcallError::IcError {
                            code: RejectionCode::SysFatal,
                            message: "Http body exceeds size limit of 2000000 bytes.".into(),
                        }));
                    }
                    if let Some((limit, arg)) = big_limit {
                        // Logs of others may fill the answer as well: then the number of blocks counts.
                        let full = n > limit || (arg % 3 == 1 && to - from >= [40, 120, 250, 600][(arg / 6 % 4) as usize]);
                        if full && (arg % 2 == 0 || p != bad) {
                            too_large += 1;
                            return Err(RpcError::HttpOutcallError(HttpOutcallError::IcError {
                                code: RejectionCode::SysFatal,
                                message: "Http body exceeds size limit of 2000000 bytes.".into(),
                            }));
                        }
                    }
                    let mut l = logs.clone();
                    if p == bad {
                        if let Some(f) = w.fault_window(F::Byz, h2(key, 4)) {
                            w.byz += 1;
                            l = w.lie_logs(l, from, to, f.arg ^ key);
                        }
                    }
                    Ok(l)
                });
                let ag = agreed(&a).map(|l| {
                    l.iter()
                        .filter_map(|e| Some((<[u8; 32]>::from(e.transaction_hash.clone()?), nat64(e.log_index.clone()?.as_ref()))))
                        .collect::<Vec<Key>>()
                });
                (multi(a), Facts::Logs { from, to, agreed: ag, too_large, truth })
            }
        };
        (Response::Reply(bytes), refund, facts)
    }

    fn too_few(&mut self, _method: &str, r: &RpcReq, errs: Vec<(RpcApi, Option<u128>)>, received: u128) -> Vec<u8> {
        let t = self.now;
        macro_rules! go {
            ($t:ty, $ok:expr) => {{
                let a: Answers<$t> = errs
                    .into_iter()
                    .map(|(s, e)| {
                        (
                            s,
                            match e {
                                Some(expected) => Err(RpcError::ProviderError(ProviderError::TooFewCycles { expected, received })),
                                None => Ok($ok),
                            },
                        )
                    })
                    .collect();
                multi(a)
            }};
        }
        match &r.req {
            Req::Block(tag) => {
                let b = self.block(self.head_of(tag, t).unwrap_or(1));
                go!(Block, b.clone())
            }
            Req::Logs(q) => {
                let (from, to) = (self.number(&q.from_block, t), self.number(&q.to_block, t));
                let l = self.logs(q, from, to, t);
                go!(Vec<LogEntry>, l.clone())
            }
            Req::Fee(q) => {
                let f = self.fees(q, t);
                go!(Option<FeeHistory>, Some(f.clone()))
            }
            Req::Receipt(_) => go!(Option<TransactionReceipt>, None),
            Req::Count(_) => go!(Nat256, n256(0)),
            Req::Send(_) => go!(SendRawTransactionStatus, SendRawTransactionStatus::NonceTooLow),
        }
    }

    pub fn head_of(&self, tag: &BlockTag, t: u64) -> Option<u64> {
        Some(match tag {
            BlockTag::Latest => self.chain.head(t),
            BlockTag::Safe => self.chain.safe_head(t),
            BlockTag::Finalized => self.chain.final_head(t),
            BlockTag::Number(n) => nat64(n.as_ref()),
            _ => return None,
        })
    }
    pub fn number(&self, tag: &Option<BlockTag>, t: u64) -> u64 {
        tag.as_ref().and_then(|x| self.head_of(x, t)).unwrap_or(0)
    }
    fn block(&self, n: u64) -> Block {
        let z32 = || Hex32::from([0u8; 32]);
        Block {
            base_fee_per_gas: Some(n256(self.chain.base(n))),
            number: n256(n),
            difficulty: None,
            extra_data: Hex::from(vec![]),
            gas_limit: n256(30_000_000),
            gas_used: n256(h3(self.plan.seed, 8, n) % 30_000_000),
            hash: Hex32::from(self.chain.block_hash(n)),
            logs_bloom: Hex256::from([0u8; 256]),
            miner: Hex20::from([7u8; 20]),
            mix_hash: z32(),
            nonce: n256(0),
            parent_hash: Hex32::from(self.chain.block_hash(n - 1)),
            receipts_root: z32(),
            sha3_uncles: z32(),
            size: n256(1000),
            state_root: z32(),
            timestamp: n256(self.chain.time_of(n) / 1_000_000_000),
            total_difficulty: None,
            transactions: vec![],
            transactions_root: None,
            uncles: vec![],
        }
    }
    fn fees(&self, q: &FeeHistoryArgs, t: u64) -> FeeHistory {
        let n = nat64(q.block_count.as_ref()).clamp(1, 1024);
        let newest = self.head_of(&q.newest_block, t).unwrap_or(0);
        let oldest = newest + 1 - n.min(newest);
        let pct = q.reward_percentiles.clone().unwrap_or_default();
        FeeHistory {
            oldest_block: n256(oldest),
            base_fee_per_gas: (oldest..=newest + 1).map(|b| n256(self.chain.base(b))).collect(),
            gas_used_ratio: (oldest..=newest).map(|b| (h3(self.plan.seed, 9, b) % 100) as f64 / 100.0).collect(),
            reward: (oldest..=newest)
                .map(|b| pct.iter().map(|p| n256((self.chain.tip(b) as u128 * *p as u128 / 20) as u64)).collect())
                .collect(),
        }
    }
    fn receipt(&self, m: &Mined) -> TransactionReceipt {
        TransactionReceipt {
            block_hash: Hex32::from(self.chain.block_hash(m.block)),
            block_number: n256(m.block),
            effective_gas_price: b256(&m.price),
            gas_used: n256(m.gas_used),
            status: Some(n256(m.ok as u64)),
            transaction_hash: Hex32::from(m.tx.hash),
            contract_address: None,
            from: Hex20::from(m.tx.signer),
            logs: vec![],
            logs_bloom: Hex256::from([0u8; 256]),
            to: Some(Hex20::from(m.tx.to)),
            transaction_index: n256(h3(self.plan.seed, 10, m.block) % 200),
            tx_type: HexByte::from(2u8),
        }
    }
    fn lie_receipt(&self, truth: Option<TransactionReceipt>, hash: &[u8; 32], k: u64) -> Option<TransactionReceipt> {
        match truth {
            None => Some(TransactionReceipt {
                block_hash: Hex32::from([1u8; 32]),
                block_number: n256(self.chain.final_head(self.now)),
                effective_gas_price: n256(1),
                gas_used: n256(21_000),
                status: Some(n256(k % 2)),
                transaction_hash: Hex32::from(*hash),
                contract_address: None,
                from: Hex20::from([3u8; 20]),
                logs: vec![],
                logs_bloom: Hex256::from([0u8; 256]),
                to: None,
                transaction_index: n256(0),
                tx_type: HexByte::from(2u8),
            }),
            Some(mut r) => {
                match k % 4 {
                    0 => return None,
                    1 => {
                        let s = nat64(r.status.clone().unwrap().as_ref());
                        r.status = Some(n256(1 - s));
                    }
                    2 => r.effective_gas_price = n256(1 + k % 1000),
                    _ => r.block_number = n256(nat64(r.block_number.as_ref()) + 1),
                }
                Some(r)
            }
        }
    }
    fn log_entry(&self, d: &Dep) -> LogEntry {
        let gone = if d.form == Form::Pending { d.tx[0] % 5 } else { 9 };
        LogEntry {
            address: Hex20::from(d.contract),
            topics: d.topics.iter().map(|t| Hex32::from(*t)).collect(),
            data: Hex::from(d.data.clone()),
            block_number: if gone == 0 { None } else { Some(n256(d.block)) },
            transaction_hash: if gone == 1 { None } else { Some(Hex32::from(d.tx)) },
            transaction_index: if gone == 2 { None } else { Some(n256(d.tx_index)) },
            block_hash: if gone == 3 { None } else { Some(Hex32::from(self.chain.block_hash(d.block))) },
            log_index: if gone == 4 { None } else { Some(n256(d.log_index)) },
            removed: d.removed,
        }
    }
    /// eth_getLogs semantics: addresses any-of, topics by position, each position any-of, empty = any.
    fn logs(&self, q: &GetLogsArgs, from: u64, to: u64, t: u64) -> Vec<LogEntry> {
        let mut v: Vec<&Dep> = self
            .chain
            .deps
            .iter()
            .filter(|d| d.canonical && d.block >= from && d.block <= to && d.at <= t)
            .filter(|d| q.addresses.is_empty() || q.addresses.iter().any(|a| <[u8; 20]>::from(a.clone()) == d.contract))
            .filter(|d| {
                q.topics.as_ref().map_or(true, |ts| {
                    ts.iter().enumerate().all(|(i, any)| any.is_empty() || (i < d.topics.len() && any.iter().any(|x| <[u8; 32]>::from(x.clone()) == d.topics[i])))
                })
            })
            .collect();
        v.sort_by_key(|d| (d.block, d.log_index));
        v.into_iter().map(|d| self.log_entry(d)).collect()
    }
    fn lie_logs(&self, mut l: Vec<LogEntry>, from: u64, to: u64, k: u64) -> Vec<LogEntry> {
        match k % 4 {
            0 if !l.is_empty() => {
                let i = (k >> 8) as usize % l.len();
                l.remove(i);
            }
            1 if !l.is_empty() => {
                let i = (k >> 8) as usize % l.len();
                if l[i].topics.len() > 2 {
                    l[i].topics[2] = Hex32::from(be32(&(num_bigint::BigUint::from(1u8) << 100u32)));
                }
            }
            2 if !l.is_empty() => {
                // Another beneficiary.
                let i = (k >> 8) as usize % l.len();
                let mut p = [0u8; 32];
                p[0] = 5;
                p[1..6].copy_from_slice(&[9, 9, 9, 9, 1]);
                if l[i].topics.len() > 3 {
                    l[i].topics[3] = Hex32::from(p);
                }
            }
            _ => {
                let mut p = [0u8; 32];
                p[0] = 5;
                p[1..6].copy_from_slice(&[9, 9, 9, 9, 2]);
                let mut data = word(&[0x11; 20]).to_vec();
                data.extend_from_slice(&[0u8; 32]);
                l.push(LogEntry {
                    address: Hex20::from(self.conf.helper),
                    topics: vec![
                        Hex32::from(deposit_topic()),
                        Hex32::from([0u8; 32]),
                        Hex32::from(be32(&(num_bigint::BigUint::from(1u8) << 90u32))),
                        Hex32::from(p),
                    ],
                    data: Hex::from(data),
                    block_number: Some(n256(from + (k >> 16) % (to - from.min(to) + 1))),
                    transaction_hash: Some(Hex32::from(keccak(&k.to_be_bytes()))),
                    transaction_index: Some(n256(1)),
                    block_hash: Some(Hex32::from(self.chain.block_hash(from))),
                    log_index: Some(n256(3)),
                    removed: false,
                });
            }
        }
        l
    }
}
