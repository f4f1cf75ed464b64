//! Logs written by the minter as it is deployed today: whatever the code becomes, it has to read them the same way.
use crate::plan::Plan;
use crate::replica::*;
use crate::types::*;
use crate::world::*;
use candid::{Decode, Encode};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Fixture {
    pub net: usize,
    pub now: u64,
    pub pages: usize,
    /// Non-zero stretches of stable memory.
    pub memory: Vec<(usize, String)>,
    pub ids: Vec<u64>,
    /// Candid answers: minter info, helper contract, status per id, pages of the log.
    pub answers: Vec<String>,
}

const FIXTURES: &str = include_str!("../fixtures.json");

pub fn fixtures() -> &'static Vec<Fixture> {
    static F: std::sync::OnceLock<Vec<Fixture>> = std::sync::OnceLock::new();
    F.get_or_init(|| serde_json::from_str(FIXTURES).expect("fixtures"))
}

fn ask(rep: &mut Replica, ids: &[u64]) -> Result<Vec<Vec<u8>>, String> {
    let who = [4u8, 1];
    let mut out = vec![rep.query("get_minter_info", &who, &Encode!().unwrap())?, rep.query("smart_contract_address", &who, &Encode!().unwrap())?];
    for i in ids {
        out.push(rep.query("withdrawal_status", &who, &Encode!(&WithdrawalSearchParameter::ByWithdrawalId(*i)).unwrap())?);
    }
    let mut start = 0;
    loop {
        let b = rep.query("get_events", &who, &Encode!(&GetEventsArg { start, length: 100 }).unwrap())?;
        let n = Decode!(&b, GetEventsResult).map_err(|e| e.to_string())?.events.len() as u64;
        out.push(b);
        start += n;
        if n == 0 {
            return Ok(out);
        }
    }
}

/// The state at the end of a run, after one upgrade.
pub fn take(rep: &mut Replica, net: usize, now: u64, ids: Vec<u64>, admin: &[u8]) -> Option<Fixture> {
    rep.contexts.clear();
    rep.callbacks.clear();
    let fx = rep.upgrade(admin, &Encode!(&None::<MinterArg>).unwrap());
    if fx.trapped.is_some() {
        return None;
    }
    let answers = ask(rep, &ids).ok()?.iter().map(hex::encode).collect();
    let (pages, memory) = rep.stable_dump();
    Some(Fixture { net, now, pages, memory: memory.into_iter().map(|(o, b)| (o, hex::encode(b))).collect(), ids, answers })
}

impl World<'_> {
    pub fn legacy(&mut self, k: u64) {
        let Some(f) = fixtures().get(k as usize) else { return };
        self.hit("P09");
        self.hit("P20");
        self.hit("P21");
        let memory: Vec<(usize, Vec<u8>)> = f.memory.iter().map(|(o, b)| (*o, hex::decode(b).unwrap())).collect();
        let e = self.rep.exec();
        e.self_id = self.me.as_slice().to_vec();
        e.controllers = vec![self.admin.as_slice().to_vec()];
        e.balance = FULL;
        e.now = f.now;
        self.rep.stable_load(f.pages, &memory);
        let admin = self.admin;
        let all = ["P09", "P21", "P20"];
        if let Err(m) = self.rep.revive(admin.as_slice(), &Encode!(&None::<MinterArg>).unwrap()) {
            self.fail(&all, format!("a log written by the deployed minter ({}) can no longer be read: {}", k, m));
            return self.rep.reset();
        }
        match ask(self.rep, &f.ids) {
            Err(m) => self.fail(&all, format!("after an upgrade from the deployed minter ({}) a query fails: {}", k, m)),
            Ok(got) => {
                let want: Vec<Vec<u8>> = f.answers.iter().map(|a| hex::decode(a).unwrap()).collect();
                self.compare(k, f.ids.len(), &got, &want);
            }
        }
        self.rep.reset();
    }

    fn compare(&mut self, k: u64, ids: usize, got: &[Vec<u8>], want: &[Vec<u8>]) {
        let (a, b) = (Decode!(&got[0], MinterInfo), Decode!(&want[0], MinterInfo));
        if a.as_ref().ok() != b.as_ref().ok() {
            self.fail(&["P09", "P20"], format!("after an upgrade from the deployed minter ({}) the minter info is {:?} instead of {:?}", k, a, b));
        }
        let (a, b) = (Decode!(&got[1], String), Decode!(&want[1], String));
        if a.as_ref().ok() != b.as_ref().ok() {
            self.fail(&["P09", "P20"], format!("after an upgrade from the deployed minter ({}) the helper contract is {:?} instead of {:?}", k, a, b));
        }
        for i in 0..ids {
            let (a, b) = (Decode!(&got[2 + i], Vec<WithdrawalDetail>), Decode!(&want[2 + i], Vec<WithdrawalDetail>));
            if a.as_ref().ok() != b.as_ref().ok() {
                self.fail(&["P09", "P14"], format!("after an upgrade from the deployed minter ({}) a withdrawal is {:?} instead of {:?}", k, a, b));
            }
        }
        let all = |v: &[Vec<u8>]| -> Vec<Event> { v[2 + ids..].iter().filter_map(|b| Decode!(b, GetEventsResult).ok()).flat_map(|r| r.events).collect() };
        let (a, b) = (all(got), all(want));
        if a != b {
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
            self.fail(&["P09", "P21"], format!("entry {} of a log written by the deployed minter ({}) reads {:?} instead of {:?}", i, k, a.get(i), b.get(i)));
        }
    }
}

/// Writes the fixtures (run once, against the deployed code).
pub fn record(rep: &mut Replica, plans: impl Iterator<Item = Plan>) -> Vec<Fixture> {
    let mut nets = [0u32; 10];
    let mut kinds: std::collections::BTreeMap<String, u32> = Default::default();
    let mut out = vec![];
    for p in plans {
        let net = p.cfg.net;
        let Some((f, names, n)) = crate::world::run_for_fixture(rep, &p) else { continue };
        let fresh = names.iter().filter(|k| kinds.get(*k).map_or(true, |c| *c < 2)).count();
        if n > 160 || n < 25 || (fresh == 0 && nets[net] > 0) {
            continue;
        }
        eprintln!("net {} entries {} kinds {:?}", net, n, names);
        nets[net] += 1;
        for k in names {
            *kinds.entry(k).or_default() += 1;
        }
        out.push(f);
        if out.len() >= 24 || (nets.iter().all(|n| *n > 0) && kinds.len() >= 21 && kinds.values().all(|c| *c > 1)) {
            break;
        }
    }
    eprintln!("{} fixtures, {} kinds {:?}", out.len(), kinds.len(), kinds);
    out
}
