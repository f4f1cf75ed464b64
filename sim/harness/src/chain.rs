//! The EVM chain (simulated peer): blocks by time, deposit logs, fee market, mempool, mining, finality, reorgs.
use crate::plan::Form;
use crate::util::*;
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub const BLOCK_MS: [u64; 10] = [12000, 12000, 1000, 3000, 3000, 2000, 2000, 2000, 2000, 1000];
pub const CHAIN_IDS: [u64; 10] = [1, 11155111, 42161, 56, 97, 137, 10, 8453, 43114, 250];
/// Confirmations the minter must leave below the observed head, per network.
pub const DEPTH: [u64; 10] = [0, 0, 12, 20, 0, 0, 12, 12, 12, 12];

pub fn deposit_topic() -> [u8; 32] {
    keccak(b"DepositLog(address,address,uint256,bytes32,bytes32)")
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub hash: [u8; 32],
    pub chain_id: BigUint,
    pub nonce: BigUint,
    pub prio: BigUint,
    pub max_fee: BigUint,
    pub gas: BigUint,
    pub to: [u8; 20],
    pub value: BigUint,
    pub data: Vec<u8>,
    pub signer: [u8; 20],
    pub access: usize,
}
impl Tx {
    pub fn cost(&self) -> BigUint {
        &self.value + &self.gas * &self.max_fee
    }
    pub fn n(&self) -> u64 {
        use num_traits::ToPrimitive;
        self.nonce.to_u64().unwrap_or(u64::MAX)
    }
}

pub fn address_of(point: &[u8]) -> [u8; 20] {
    // Uncompressed SEC1 point.
    let h = keccak(&point[1..]);
    let mut a = [0u8; 20];
    a.copy_from_slice(&h[12..]);
    a
}

pub fn decode_tx(raw: &[u8]) -> Result<Tx, String> {
    if raw.first() != Some(&2) {
        return Err("not an EIP-1559 transaction".into());
    }
    let r = rlp::Rlp::new(&raw[1..]);
    let n = r.item_count().map_err(|e| e.to_string())?;
    if n != 12 {
        return Err(format!("{} fields instead of 12", n));
    }
    if r.as_raw().len() != raw.len() - 1 {
        return Err("trailing bytes".into());
    }
    let bytes = |i: usize| -> Result<Vec<u8>, String> { r.val_at::<Vec<u8>>(i).map_err(|e| e.to_string()) };
    let int = |i: usize| -> Result<BigUint, String> {
        let b = bytes(i)?;
        if b.first() == Some(&0) {
            return Err(format!("field {} has a leading zero", i));
        }
        if b.len() > 32 {
            return Err(format!("field {} is too long", i));
        }
        Ok(BigUint::from_bytes_be(&b))
    };
    let to = <[u8; 20]>::try_from(bytes(5)?.as_slice()).map_err(|_| "bad destination".to_string())?;
    let access = r.at(8).and_then(|x| x.item_count()).map_err(|e| e.to_string())?;
    let v = int(9)?;
    let (rr, ss) = (be32(&int(10)?), be32(&int(11)?));
    // Signing hash: the first nine fields.
    let mut s = rlp::RlpStream::new_list(9);
    for i in 0..9 {
        s.append_raw(r.at(i).map_err(|e| e.to_string())?.as_raw(), 1);
    }
    let mut pre = vec![2u8];
    pre.extend_from_slice(&s.out());
    let digest = keccak(&pre);
    let mut sig = [0u8; 64];
    sig[..32].copy_from_slice(&rr);
    sig[32..].copy_from_slice(&ss);
    let sig = k256::ecdsa::Signature::from_slice(&sig).map_err(|e| e.to_string())?;
    if sig.normalize_s().is_some() {
        return Err("high-s signature".into());
    }
    let parity = if v == BigUint::default() {
        0
    } else if v == BigUint::from(1u8) {
        1
    } else {
        return Err("bad parity".into());
    };
    let rec = k256::ecdsa::RecoveryId::from_byte(parity).unwrap();
    let key = k256::ecdsa::VerifyingKey::recover_from_prehash(&digest, &sig, rec).map_err(|e| e.to_string())?;
    Ok(Tx {
        hash: keccak(raw),
        chain_id: int(0)?,
        nonce: int(1)?,
        prio: int(2)?,
        max_fee: int(3)?,
        gas: int(4)?,
        to,
        value: int(6)?,
        data: bytes(7)?,
        signer: address_of(key.to_encoded_point(false).as_bytes()),
        access,
    })
}

#[derive(Clone, Debug)]
pub struct Dep {
    pub tx: [u8; 32],
    pub tx_index: u64,
    pub log_index: u64,
    pub block: u64,
    pub contract: [u8; 20],
    pub token: [u8; 20],
    pub value: BigUint,
    pub principal: Vec<u8>,
    pub sub: [u8; 32],
    pub from: [u8; 20],
    pub form: Form,
    /// Well formed, from the helper contract.
    pub valid: bool,
    pub canonical: bool,
    pub topics: Vec<[u8; 32]>,
    pub data: Vec<u8>,
    pub removed: bool,
    pub at: u64,
}
pub type Key = ([u8; 32], u64);
impl Dep {
    pub fn key(&self) -> Key {
        (self.tx, self.log_index)
    }
}

#[derive(Clone, Debug)]
pub struct Mined {
    pub tx: Tx,
    pub block: u64,
    pub ok: bool,
    pub gas_used: u64,
    pub price: BigUint,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Sent {
    Ok,
    Known,
    NonceTooLow,
    Insufficient,
    Error(&'static str),
}

pub struct Chain {
    pub seed: u64,
    pub t0: u64,
    pub net: usize,
    pub tag: u8,
    pub block_ns: u64,
    pub finality_ns: u64,
    pub head0: u64,
    pub base_fee: u64,
    pub prio: u64,
    /// (from, to, numerator over 10)
    pub spikes: Vec<(u64, u64, u64, u8)>,
    /// Tenths of the fees after the faults.
    pub after: u64,
    /// Only the tips stay that high, and blocks have no room for less than the going tip.
    pub tips_only: bool,
    pub stuck: Vec<(u64, u64)>,
    pub quiet_from: u64,
    pub deps: Vec<Dep>,
    /// Keys of logs that a reorg removed or renumbered.
    pub orphans: Vec<Dep>,
    pub pool: BTreeMap<u64, Vec<(Tx, u64)>>,
    pub mined: Vec<Mined>,
    pub nonce: u64,
    upto: u64,
    pub balance: BigUint,
    pub erc20: BTreeMap<[u8; 20], BigUint>,
    pub supported: Vec<[u8; 20]>,
    counter: u64,
    pub epoch: Vec<(u64, u64)>,
    pub reorgs: u64,
    pub replaced: u64,
    pub underpriced: u64,
}

/// Contracts among the recipients: plain transfers to them run out of gas.
pub fn is_contract(a: &[u8; 20]) -> bool {
    a[19] % 5 == 4
}
/// Recipients an ERC-20 transfer to which reverts.
pub fn refuses_erc20(token: &[u8; 20], a: &[u8; 20]) -> bool {
    (a[18] as u64 + token[19] as u64) % 4 == 1
}

impl Chain {
    #[allow(clippy::too_many_arguments)]
    pub fn new(seed: u64, t0: u64, net: usize, tag: u8, finality_s: u64, head0: u64, base_fee: u64, prio: u64, nonce: u64, quiet_from: u64) -> Chain {
        Chain {
            seed,
            t0,
            net,
            tag,
            block_ns: BLOCK_MS[net] * 1_000_000,
            finality_ns: finality_s * 1_000_000_000,
            head0,
            base_fee,
            prio,
            spikes: vec![],
            after: 10,
            tips_only: false,
            stuck: vec![],
            quiet_from,
            deps: vec![],
            orphans: vec![],
            pool: BTreeMap::new(),
            mined: vec![],
            nonce,
            upto: head0,
            balance: BigUint::default(),
            erc20: BTreeMap::new(),
            supported: vec![],
            counter: 0,
            epoch: vec![],
            reorgs: 0,
            replaced: 0,
            underpriced: 0,
        }
    }
    pub fn head(&self, t: u64) -> u64 {
        if t >= self.t0 {
            self.head0 + (t - self.t0) / self.block_ns
        } else {
            self.head0 - ((self.t0 - t) + self.block_ns - 1) / self.block_ns
        }
    }
    pub fn final_head(&self, t: u64) -> u64 {
        self.head(t - self.finality_ns)
    }
    pub fn safe_head(&self, t: u64) -> u64 {
        self.head(t - self.finality_ns / 2)
    }
    /// Head under a configured block tag (0 latest, 1 safe, 2 finalized).
    pub fn tag_head(&self, tag: u8, t: u64) -> u64 {
        match tag {
            0 => self.head(t),
            1 => self.safe_head(t),
            _ => self.final_head(t),
        }
    }
    pub fn time_of(&self, block: u64) -> u64 {
        if block >= self.head0 {
            self.t0 + (block - self.head0) * self.block_ns
        } else {
            self.t0 - (self.head0 - block) * self.block_ns
        }
    }
    /// Tenths by which the base fee (0) or the tip (1) is multiplied.
    fn factor(&self, t: u64, what: u8) -> u64 {
        self.spikes.iter().find(|s| s.0 <= t && t < s.1 && s.3 != 1 - what).map_or(10, |s| s.2)
    }
    pub fn calm_base(&self) -> u64 {
        (self.base_fee * (if self.tips_only { 10 } else { self.after }) / 10).max(1)
    }
    pub fn calm_tip(&self) -> u64 {
        self.prio * self.after / 10
    }
    /// Whether a transaction offers too little to be included for good.
    fn shunned(&self, tx: &Tx, t: u64) -> bool {
        let least = if t >= self.quiet_from { self.calm_tip() } else { self.prio * self.factor(t, 1) / 10 * 6 / 10 };
        self.tips_only && tx.prio < BigUint::from(least)
    }
    pub fn base(&self, block: u64) -> u64 {
        let t = self.time_of(block);
        if t >= self.quiet_from {
            return self.calm_base();
        }
        let w = 880 + h3(self.seed, 0xba5e, block) % 241;
        ((self.base_fee as u128 * w as u128 * self.factor(t, 0) as u128 / 10_000) as u64).max(1)
    }
    pub fn tip(&self, block: u64) -> u64 {
        let t = self.time_of(block);
        if t >= self.quiet_from {
            return self.calm_tip();
        }
        let w = 600 + h3(self.seed, 0x71b, block) % 801;
        (self.prio as u128 * w as u128 * self.factor(t, 1) as u128 / 10_000) as u64
    }
    pub fn block_hash(&self, b: u64) -> [u8; 32] {
        let e = self.epoch.iter().filter(|e| b >= e.0).map(|e| e.1).last().unwrap_or(0);
        keccak(format!("block {} {} {}", self.seed, b, e).as_bytes())
    }

    #[allow(clippy::too_many_arguments)]
    pub fn deposit(&mut self, block: u64, at: u64, contract: [u8; 20], token: [u8; 20], value: BigUint, principal: Vec<u8>, sub: [u8; 32], form: Form, batch: bool) -> usize {
        self.counter += 1;
        let c = self.counter;
        let mut from = [0u8; 20];
        from.copy_from_slice(&keccak(format!("sender {} {}", self.seed, c % 7).as_bytes())[..20]);
        if c % 11 == 3 {
            from[0] = 0;
            from[1] = 0;
        }
        let prev = self.deps.iter().rev().find(|d| d.block == block).cloned();
        let (tx, tx_index) = match (&prev, batch) {
            (Some(p), true) => (p.tx, p.tx_index),
            _ => (keccak(format!("deposit {} {}", self.seed, c).as_bytes()), prev.as_ref().map_or(h3(self.seed, 5, block) % 300, |p| p.tx_index + 1)),
        };
        let start = [0u64, 1, 22, 23, 24, 255, 256, 300, 65_536][(h3(self.seed, 6, block) % 9) as usize];
        let log_index = self.deps.iter().filter(|d| d.block == block).map(|d| d.log_index + 1).max().unwrap_or(start);
        let mut t1 = word(&token);
        let t2 = be32(&value);
        let mut t3 = [0u8; 32];
        t3[0] = principal.len() as u8;
        t3[1..1 + principal.len()].copy_from_slice(&principal);
        let mut fromw = word(&from);
        let mut data_len = 64;
        let mut valid = true;
        match form {
            Form::Len0 => {
                t3 = [0u8; 32];
                valid = false;
            }
            Form::Len30 => {
                t3[0] = 30 + (c % 200) as u8;
                valid = false;
            }
            Form::Trailing => {
                t3 = [0u8; 32];
                t3[0] = 5;
                t3[1..6].copy_from_slice(&[1, 2, 3, 4, 5]);
                t3[8] = 7;
                valid = false;
            }
            Form::Anonymous => {
                t3 = [0u8; 32];
                t3[0] = 1;
                t3[1] = 4;
                valid = false;
            }
            Form::BadFrom => {
                fromw[3] = 9;
                valid = false;
            }
            Form::ShortData => {
                data_len = 32 + (c % 31) as usize;
                valid = false;
            }
            Form::LongData => {
                data_len = 96;
                valid = false;
            }
            Form::BadToken => {
                t1[2] = 1;
                valid = false;
            }
            Form::OtherContract | Form::Removed | Form::Unsupported | Form::Pending | Form::FewTopics => valid = false,
            Form::Ok | Form::ToMinter => {}
        }
        let mut data = fromw.to_vec();
        data.extend_from_slice(&sub);
        data.resize(data_len, 0);
        let mut topics = vec![deposit_topic(), t1, t2, t3];
        if form == Form::FewTopics {
            topics.truncate(2 + c as usize % 2);
        }
        let d = Dep {
            tx,
            tx_index,
            log_index,
            block,
            contract,
            token,
            value: value.clone(),
            principal,
            sub,
            from,
            form: form.clone(),
            valid,
            canonical: true,
            topics,
            data,
            removed: form == Form::Removed,
            at,
        };
        self.apply(&d, true);
        self.deps.push(d);
        self.deps.len() - 1
    }
    fn apply(&mut self, d: &Dep, plus: bool) {
        if matches!(d.form, Form::OtherContract | Form::Removed | Form::Pending | Form::BadToken) {
            return;
        }
        let b = if d.token == [0; 20] { &mut self.balance } else { self.erc20.entry(d.token).or_default() };
        if plus {
            *b += &d.value
        } else {
            *b -= &d.value
        }
    }

    /// Mines every block up to time `t`.
    pub fn advance(&mut self, t: u64) {
        let head = self.head(t);
        while self.upto < head {
            if self.pool.is_empty() {
                self.upto = head;
                break;
            }
            let b = self.upto + 1;
            self.upto = b;
            let bt = self.time_of(b);
            if self.stuck.iter().any(|s| s.0 <= bt && bt < s.1) {
                continue;
            }
            let quiet = bt >= self.quiet_from;
            loop {
                let n = self.nonce;
                let base = BigUint::from(self.base(b));
                let pick = {
                    let Some(v) = self.pool.get(&n) else { break };
                    let ok: Vec<&(Tx, u64)> = v.iter().filter(|(tx, at)| *at < b && tx.max_fee >= base && !self.shunned(tx, bt) && tx.cost() <= self.balance).collect();
                    if ok.is_empty() {
                        break;
                    }
                    let h = h3(self.seed, 0x1c1d ^ n, b);
                    if !quiet && h % 100 >= 55 {
                        break;
                    }
                    ok[(h >> 20) as usize % ok.len()].0.clone()
                };
                self.pool.remove(&n);
                self.mine(pick, b);
            }
        }
    }
    fn mine(&mut self, tx: Tx, b: u64) {
        let base = BigUint::from(self.base(b));
        let price = tx.max_fee.clone().min(&base + &tx.prio);
        let h = h3(self.seed, 0x6a5, self.nonce);
        use num_traits::ToPrimitive;
        let limit = tx.gas.to_u64().unwrap_or(u64::MAX);
        let (ok, gas_used) = match self.erc20.contains_key(&tx.to) {
            true if tx.data.len() == 68 => {
                let mut to = [0u8; 20];
                to.copy_from_slice(&tx.data[16..36]);
                let amt = BigUint::from_bytes_be(&tx.data[36..68]);
                let have = self.erc20.get(&tx.to).cloned().unwrap_or_default();
                let used = 30_000 + h % 30_000;
                if used > limit {
                    (false, limit)
                } else if have < amt || refuses_erc20(&tx.to, &to) {
                    (false, 25_000 + h % 20_000)
                } else {
                    (true, used)
                }
            }
            true => (false, limit),
            false => {
                if is_contract(&tx.to) {
                    (false, limit)
                } else {
                    (true, 21_000)
                }
            }
        };
        let m = Mined { tx, block: b, ok, gas_used, price };
        self.settle(&m, true);
        self.nonce += 1;
        self.mined.push(m);
    }
    fn settle(&mut self, m: &Mined, forward: bool) {
        let fee = &m.price * m.gas_used;
        let v = if m.ok { m.tx.value.clone() } else { BigUint::default() };
        if forward {
            self.balance -= fee + v;
        } else {
            self.balance += fee + v;
        }
        if m.ok && m.tx.data.len() == 68 {
            let amt = BigUint::from_bytes_be(&m.tx.data[36..68]);
            if let Some(b) = self.erc20.get_mut(&m.tx.to) {
                if forward {
                    *b -= amt
                } else {
                    *b += amt
                }
            }
        }
    }

    pub fn send(&mut self, tx: Tx, t: u64) -> Sent {
        self.advance(t);
        if tx.chain_id != BigUint::from(CHAIN_IDS[self.net]) {
            return Sent::Error("invalid sender");
        }
        let n = tx.n();
        if n < self.nonce {
            return Sent::NonceTooLow;
        }
        if tx.gas < BigUint::from(21_000u32) {
            return Sent::Error("intrinsic gas too low");
        }
        if tx.max_fee < tx.prio {
            return Sent::Error("max priority fee per gas higher than max fee per gas");
        }
        if tx.cost() > self.balance {
            return Sent::Insufficient;
        }
        let head = self.head(t);
        let floor = BigUint::from(self.base(head));
        let least = BigUint::from(if self.tips_only { self.calm_tip() } else { 0 });
        let keep_old = h3(self.seed, 0xa17, n) % 3 == 0;
        let v = self.pool.entry(n).or_default();
        if v.iter().any(|(o, _)| o.hash == tx.hash) {
            return Sent::Known;
        }
        // Pools drop transactions which cannot pay the base fee for long.
        if t >= self.quiet_from {
            v.retain(|(o, _)| o.max_fee >= floor && o.prio >= least);
        }
        if let Some((old, _)) = v.last() {
            let bump = |x: &BigUint| x + x / 10u32;
            if tx.max_fee < bump(&old.max_fee) || tx.prio < bump(&old.prio) || tx.max_fee <= old.max_fee {
                self.underpriced += 1;
                return Sent::Error("replacement transaction underpriced");
            }
            self.replaced += 1;
            if !keep_old {
                v.clear();
            }
        }
        v.push((tx, head));
        Sent::Ok
    }

    pub fn receipt(&mut self, hash: &[u8; 32], t: u64) -> Option<Mined> {
        self.advance(t);
        self.mined.iter().find(|m| &m.tx.hash == hash).cloned()
    }
    pub fn count_at(&mut self, head: u64, t: u64) -> u64 {
        self.advance(t);
        self.nonce - self.mined.iter().filter(|m| m.block > head).count() as u64
    }

    /// Rewrites the most recent blocks, never below what the configured confirmation rule protects.
    pub fn reorg(&mut self, depth: u64, t: u64, tags: &[u8]) -> u64 {
        self.advance(t);
        let head = self.head(t);
        let max = match DEPTH[self.net] {
            0 => u64::MAX,
            d => d - 1,
        };
        let mut lo = (head + 1).saturating_sub(depth.min(max)).max(self.final_head(t) + 1);
        for tag in tags {
            if *tag != 0 || DEPTH[self.net] == 0 {
                lo = lo.max(self.tag_head(*tag, t) + 1);
            }
        }
        if lo > head {
            return 0;
        }
        self.reorgs += 1;
        self.epoch.push((lo, self.reorgs));
        let mut touched = 0;
        for i in 0..self.deps.len() {
            let d = self.deps[i].clone();
            if !d.canonical || d.block < lo || d.block > head {
                continue;
            }
            touched += 1;
            // Logs of one transaction share its fate.
            let id = u64::from_be_bytes(d.tx[..8].try_into().unwrap());
            match h3(self.seed, 0x2e0 + self.reorgs, id) % 3 {
                0 => {}
                1 => {
                    self.orphans.push(d.clone());
                    let block = head + 1 + h3(self.seed, 0x2e1, id) % 4;
                    let log_index = self.deps.iter().filter(|e| e.block == block).map(|e| e.log_index + 1).max().unwrap_or(d.log_index + 1);
                    let e = &mut self.deps[i];
                    e.block = block;
                    e.log_index = log_index;
                }
                _ => {
                    self.orphans.push(d.clone());
                    self.deps[i].canonical = false;
                    if (if d.token == [0; 20] { &self.balance } else { self.erc20.get(&d.token).unwrap_or(&self.balance) }) >= &d.value {
                        self.apply(&d, false);
                    }
                }
            }
        }
        while let Some(m) = self.mined.last() {
            if m.block < lo {
                break;
            }
            touched += 1;
            let m = self.mined.pop().unwrap();
            self.settle(&m, false);
            self.nonce -= 1;
            self.pool.entry(m.tx.n()).or_default().push((m.tx, head));
        }
        touched
    }
}
