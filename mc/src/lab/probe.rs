//! Questions to a stock and operations on it, in uniform shape.

use std::collections::{BTreeMap, BTreeSet};

use bp::seals::SecretSeal;
use bp::Outpoint;
use commit_verify::Conceal;
use rgbstd::persistence::Stock;
use rgbstd::*;

use super::*;
use crate::core::{fnv, guard, set_rng, Fail, Sut, R};

/// What may be asked from a stock.
#[derive(Clone)]
pub struct Asked {
    pub contracts: BTreeSet<ContractId>,
    pub outpoints: BTreeSet<Outpoint>,
    pub secrets: Vec<XChain<SecretSeal>>,
}

pub fn told<T>(r: R<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(_) => "refused".into(),
    }
}

/// Answers to all queries.
pub fn answers(stock: &Stock, q: &Asked) -> Vec<String> {
    let mut v = vec![];
    v.push(told(stock.schemata().sut(""), |s| {
        let mut l: Vec<String> = s.map(|x| format!("{x:?}")).collect();
        l.sort();
        l.join(",")
    }));
    v.push(told(stock.ifaces().sut(""), |s| {
        let mut l: Vec<String> = s.map(|x| x.id.to_string()).collect();
        l.sort();
        l.join(",")
    }));
    let mut ids = q.contracts.clone();
    v.push(told(contract_ids(stock), |s| {
        ids.extend(&s);
        format!("{s:?}")
    }));
    for o in &q.outpoints {
        v.push(told(stock.contracts_assigning([xo(*o)]).sut(""), |s| format!("{o} {:?}", s.collect::<BTreeSet<_>>())));
    }
    for c in ids {
        v.push(told(guard("", || contract_lines(stock, c)), |s| s.join(",")));
        v.push(told(stock.export_contract(c).sut(""), |e| format!("{c} {:x}", fnv(&bytes(&e)))));
        v.push(told(stock.contract_iface(c, "LabAsset").sut(""), |i| format!("{:?}", i.iface.iface_id)));
        for o in &q.outpoints {
            v.push(told(stock.contract_assignments_for(c, [xo(*o)]).sut(""), |s| {
                let mut l: Vec<String> = s
                    .into_iter()
                    .map(|(s, m)| format!("{s}:{:?}", m.into_iter().collect::<BTreeMap<_, _>>()))
                    .collect();
                l.sort();
                l.join(",")
            }));
            v.push(told(stock.transfer(c, [oseal(OP, *o)], None).sut(""), |e| format!("{c} {o} {:x}", fnv(&bytes(&e)))));
        }
        for s in &q.secrets {
            v.push(told(stock.transfer(c, [], Some(*s)).sut(""), |e| format!("{c} {s} {:x}", fnv(&bytes(&e)))));
        }
    }
    v
}

/// Two stocks must answer alike; equal content needs no questions.
pub fn same(a: &Stock, b: &Stock, q: &Asked) -> Option<String> {
    if providers(a) == providers(b) {
        return None;
    }
    let (x, y) = (answers(a, q), answers(b, q));
    for (x, y) in x.iter().zip(&y) {
        if x != y {
            return Some(format!("answers {x:.300} instead of {y:.300}"));
        }
    }
    if x.len() != y.len() {
        return Some("knows other contracts".into());
    }
    None
}

/// An operation on a stock.
#[derive(Clone)]
pub enum Job {
    Take(Item),
    /// New statuses are looked up.
    Refresh,
}

pub fn perform(stock: &mut Stock, job: &Job, chain: &Chain, rng: u64) -> Result<Result<(), String>, Fail> {
    set_rng(rng);
    chain.calls.set(0);
    fn say<T, E: std::fmt::Debug>(r: Result<T, E>) -> R<Result<(), String>> {
        Ok(match r {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("{e:?}").chars().take(200).collect()),
        })
    }
    guard("", || match job.clone() {
        Job::Take(Item::Seal(s)) => say(stock.store_secret_seal(s)),
        Job::Take(Item::Kit(k)) => say(stock.import_kit(k)),
        Job::Take(Item::Contract(c)) => say(stock.import_contract(c, chain)),
        Job::Take(Item::Transfer(t)) => say(stock.accept_transfer(t, chain)),
        Job::Take(Item::Fascia(f)) => say(stock.consume_fascia(f, chain)),
        Job::Refresh => say(stock.update_witnesses(chain, 0)),
    })
}

pub fn asked(h: &Hist) -> Asked {
    let mut outpoints: BTreeSet<Outpoint> = (0..h.w.wallets.len()).flat_map(|w| h.coins(w)).collect();
    for w in &h.w.wallets {
        outpoints.extend(w.ledger.visible().iter().map(|x| x.5));
    }
    Asked {
        contracts: h.w.contracts.iter().copied().collect(),
        outpoints,
        secrets: h
            .w
            .wallets
            .iter()
            .flat_map(|w| w.ledger.secrets.values().map(|s| XChain::<GraphSeal>::Bitcoin(*s).conceal()))
            .collect(),
    }
}
