//! Replacement of witness transactions: the same operations committed by
//! several transactions, with all orders of arrival and of status changes.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use bp::Outpoint;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;

use super::p01::newcomer;
use crate::core::{Ctx, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// First payment of the history.
#[derive(Clone, Copy, Debug)]
pub struct Base {
    root: Root,
    ben: Ben,
    method: bp::dbc::Method,
}

impl Display for Base {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}-{}-{}", self.root, mtag(self.method), ben_tag(self.ben))
    }
}

#[derive(Clone, Debug)]
pub enum A {
    /// The payment is committed by one more transaction.
    Alt(usize),
    Status(usize, St),
    Deliver(usize),
    /// The payee spends everything received back to the payer.
    Back,
    /// The payer spends all the change.
    Again,
}

impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Alt(k) => write!(f, "alt{k}"),
            A::Status(k, St::Mined(h)) => write!(f, "tx{k}=mined{h}"),
            A::Status(k, st) => write!(f, "tx{k}={}", format!("{st:?}").to_lowercase()),
            A::Deliver(k) => write!(f, "deliver{k}"),
            A::Back => write!(f, "back"),
            A::Again => write!(f, "again"),
        }
    }
}

struct P29 {
    spend: bool,
    alts: usize,
}

/// Whether everything needed for proving the operation has a valid witness.
fn provable(l: &Ledger, opid: OpId, mates: &BTreeMap<OpId, BTreeSet<OpId>>) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![opid];
    while let Some(id) = todo.pop() {
        if !seen.insert(id) {
            continue;
        }
        let Some(op) = l.ops.get(&id) else { return false };
        if op.genesis {
            continue;
        }
        if !l.wit[&id].iter().any(|t| l.ords[t] != WitnessOrd::Archived) {
            return false;
        }
        todo.extend(op.inputs.iter().map(|i| i.0));
        todo.extend(mates.get(&id).into_iter().flatten().copied());
    }
    true
}

fn mates(h: &Hist) -> BTreeMap<OpId, BTreeSet<OpId>> {
    let mut res: BTreeMap<OpId, BTreeSet<OpId>> = BTreeMap::new();
    for (p, ..) in &h.pays {
        for b in p.fascia.bundles.values() {
            for b in b.iter() {
                let ids: BTreeSet<OpId> = b.known_transitions.keys().copied().collect();
                for id in &ids {
                    res.entry(*id).or_default().extend(ids.iter().copied());
                }
            }
        }
    }
    res
}

fn exports(ctx: &Ctx, h: &Hist) -> R {
    let mates = mates(h);
    for (i, w) in h.w.wallets.iter().enumerate() {
        let visible = w.ledger.visible();
        let mut at: BTreeMap<(ContractId, Outpoint), BTreeSet<(u8, OpId)>> = BTreeMap::new();
        for (c, opid, _, _, m, o, _) in &visible {
            at.entry((*c, *o)).or_default().insert((*m, *opid));
        }
        for ((c, o), set) in at {
            if set.iter().any(|(_, id)| w.ledger.ops[id].genesis) || !set.iter().all(|(_, id)| provable(&w.ledger, *id, &mates)) {
                continue;
            }
            // public state may require more operations; they are not disturbed here
            let seals: Vec<XOutputSeal> =
                set.iter().map(|(m, _)| oseal(if *m == 0 { OP } else { TAP }, o)).collect();
            let t = match w.stock.transfer(c, &seals, None) {
                Ok(t) => t,
                Err(e) => fail!("error:transfer", "wallet {i}: {e:?}"),
            };
            ctx.outcome("export");
            let (stock, ledger) = newcomer(h, t, None)?;
            // what the newcomer got must be valid for them
            let key = format!(":{o} ");
            let filter = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|l| l.contains(&key)).collect() };
            let got = filter(contract_lines(&stock, c)?);
            // the newcomer learns about one of the transactions only
            let want: Vec<String> = filter(w.ledger.lines())
                .into_iter()
                .filter(|l| l.starts_with(&short(c)))
                .collect();
            let sound = filter(ledger.lines());
            if got != sound {
                fail!("newcomer-state", "{}", diff(&got, &sound).unwrap_or_default());
            }
            let single = h.txs.iter().filter(|t| w.ledger.is_valid(**t)).count();
            if got != want {
                // with several transactions valid at once either may be chosen
                let ambiguous = single > 1 && w.ledger.wit.values().any(|s| s.iter().filter(|t| w.ledger.is_valid(**t)).count() > 1);
                ensure!(ambiguous, "export-differs", "wallet {i}: {}", diff(&got, &want).unwrap_or_default());
            }
        }
    }
    Ok(())
}

impl Space for P29 {
    type Root = Base;
    type S = Hist;
    type A = A;
    fn init(&self, b: &Base) -> R<Hist> {
        let mut h = Hist::new(&b.root, 2)?;
        let n = h.coins(0).len() as u32;
        h.apply(&Act::Pay {
            from: 0,
            to: 1,
            c: 0,
            val: Val::Asset(30),
            coins: (1 << n) - 1,
            method: b.method,
            ben: b.ben,
            deliver: false,
        })?;
        Ok(h)
    }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<A> {
        let mut v = vec![];
        for (k, p) in s.pays.iter().enumerate() {
            // a transaction whose outputs are spent is not replaced any more
            if k + 1 == s.pays.len() && s.txs.len() < self.alts + s.pays.len() {
                v.push(A::Alt(k));
            }
            // delivery (also a repeated one) needs an exportable payment
            let from = &s.w.wallets[p.0.from];
            let m = mates(s);
            if p.0.ops.iter().all(|o| provable(&from.ledger, o.transition.id(), &m)) {
                v.push(A::Deliver(k));
            }
        }
        // ...and keeps its status
        let first = match s.pays.len() {
            1 => 0,
            _ => s.txs.iter().position(|t| *t == s.pays[1].0.tx.txid()).expect("known"),
        };
        for (k, t) in s.txs.iter().enumerate().skip(first) {
            for st in [St::Arch, St::Tent, St::Mined(5)] {
                if s.w.chain.ord[t] != st.ord() {
                    v.push(A::Status(k, st));
                }
            }
        }
        if self.spend && s.pays.len() == 1 {
            let c = s.w.contracts[0];
            let m = mates(s);
            for (i, a) in [(1, A::Back), (0, A::Again)] {
                let coins = s.coins(i);
                let ok = s.total(i, c, &coins, OS_ASSET) > 0
                    && s.w.wallets[i]
                        .ledger
                        .visible()
                        .iter()
                        .filter(|x| coins.contains(&x.5))
                        .all(|x| provable(&s.w.wallets[i].ledger, x.1, &m));
                // a double spend by design would follow from two valid alternatives
                let ambiguous = s.w.wallets[i]
                    .ledger
                    .wit
                    .values()
                    .any(|w| w.iter().filter(|t| s.w.wallets[i].ledger.is_valid(**t)).count() > 1);
                if ok && !ambiguous {
                    v.push(a);
                }
            }
        }
        v
    }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &A) -> R {
        match a {
            A::Alt(k) => {
                let p = s.pays[*k].0.clone();
                let to = s.pays[*k].1;
                let tweak = s.txs.len() as u32 + 1;
                let (tx, _) = s.w.broadcast(p.from, &p.ops, tweak, WitnessOrd::Tentative)?;
                let txid = tx.txid();
                s.txs.push(txid);
                s.w.wallets[p.from].coins.insert(Outpoint::new(txid, bp::Vout::from_u32(1)));
                if let Some(o) = p.outputs.first() {
                    s.w.wallets[to].coins.insert(Outpoint::new(txid, bp::Vout::from_u32(2)));
                    let o2 = oseal(o.method(), Outpoint::new(txid, bp::Vout::from_u32(2)));
                    s.pays[*k].0.outputs.push(o2);
                }
            }
            A::Status(k, st) => s.apply(&Act::Status(*k, *st))?,
            A::Deliver(k) => {
                // the payee is paid at the output of a valid transaction
                let (p, to, c, _) = s.pays[*k].clone();
                let cid = s.w.contracts[c];
                let l = &s.w.wallets[p.from].ledger;
                let outs: Vec<XOutputSeal> = p
                    .outputs
                    .iter()
                    .copied()
                    .filter(|o| match o {
                        XChain::Bitcoin(x) => l.is_valid(x.txid),
                        _ => false,
                    })
                    .collect();
                let t = s.w.transfer(p.from, cid, &outs, p.secret)?;
                s.w.accept(to, t)?;
                s.pays[*k].3 = true;
            }
            A::Back | A::Again => {
                let (from, to) = if matches!(a, A::Back) { (1, 0) } else { (0, 1) };
                let c = s.w.contracts[0];
                let coins: Vec<Outpoint> =
                    s.coins(from).into_iter().filter(|o| !s.at(from, c, &[*o]).is_empty()).collect();
                let total = s.total(from, c, &coins, OS_ASSET);
                let p = s.w.pay(from, to, c, &Val::Asset(total), &coins, OP, Ben::Vout(OP))?;
                s.txs.push(p.tx.txid());
                s.pays.push((p, to, 0, false));
            }
        }
        ctx.outcome(a.to_string().split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string());
        s.check_state()?;
        exports(ctx, s)
    }
    fn canon(&self, s: &Hist) -> String {
        format!("{}{:?}{:?}", s.canon(), s.w.chain.ord, s.pays.iter().map(|p| p.3).collect::<Vec<_>>())
    }
    fn complete_canon(&self) -> bool { true }
}

pub fn check(ctx: &Ctx) -> i32 {
    let base = |root, ben, method| Base { root, ben, method };
    let roots = [
        base(Root::One(OP), Ben::Blind(OP), OP),
        base(Root::One(OP), Ben::Vout(TAP), OP),
        base(Root::TwoMethods, Ben::Blind(TAP), TAP),
        base(Root::Shared, Ben::Vout(OP), OP),
        base(Root::Kinds, Ben::Blind(OP), OP),
    ];
    explore(ctx, &P29 { spend: false, alts: 1 }, &roots, if ctx.thorough { 5 } else { 4 });
    explore(ctx, &P29 { spend: true, alts: 1 }, &roots, if ctx.thorough { 4 } else { 3 });
    explore(ctx, &P29 { spend: false, alts: 2 }, &roots[..2], if ctx.thorough { 5 } else { 4 });
    ctx.finish(
        "model_checking",
        "all interleavings of replacements (up to two per payment), deliveries, further payments and status changes up to the depth; state compared with the reference ledger, every provable holding exported, validated and accepted by a newcomer",
        &["when two transactions for the same operations are valid at once, state is expected at the outputs of both"],
    )
}
