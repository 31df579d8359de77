//! Visibility of state against the statuses of witnesses, over all sequences of
//! status updates, including failing queries and safe-height cut-offs.

use std::collections::BTreeSet;
use std::fmt::{self, Display};

use bp::Txid;
use rgbstd::persistence::ContractStateRead;
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// History made before the updates start.
#[derive(Clone, Copy, Debug)]
enum Base {
    /// Two payments, the second spending the first.
    Chain,
    /// Two contracts moved by one transaction, then a payment.
    Shared,
    /// All kinds of state, published notes and attachments.
    Docs,
    /// A payment the payee has not received yet.
    Held,
    /// Two independent payments and one spending both.
    Join,
}

impl Display for Base {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", format!("{self:?}").to_lowercase()) }
}

impl Base {
    fn build(self) -> R<Hist> {
        let pay = |from, to, val, coins, method, ben, deliver| Act::Pay { from, to, c: 0, val, coins, method, ben, deliver };
        let (root, acts) = match self {
            Base::Chain => (Root::One(OP), vec![
                pay(0, 1, Val::Asset(60), 1, OP, Ben::Blind(TAP), true),
                pay(1, 0, Val::Asset(25), 1, TAP, Ben::Vout(OP), true),
            ]),
            Base::Shared => (Root::Shared, vec![
                Act::Sweep { from: 0 },
                pay(0, 1, Val::Asset(25), 3, OP, Ben::Vout(OP), true),
            ]),
            Base::Docs => (Root::Docs, vec![Act::Note { from: 0, coin: 1, val: 77 }]),
            Base::Held => (Root::Kinds, vec![
                pay(0, 1, Val::Asset(30), 1, OP, Ben::Blind(OP), true),
                pay(0, 1, Val::Asset(20), 3, OP, Ben::Vout(TAP), false),
            ]),
            Base::Join => (Root::Many, vec![
                pay(0, 1, Val::Asset(5), 1, OP, Ben::Vout(OP), true),
                pay(0, 1, Val::Asset(7), 2, OP, Ben::Blind(OP), true),
                pay(1, 0, Val::Asset(12), 3, OP, Ben::Vout(OP), true),
            ]),
        };
        let mut h = Hist::new(&root, 2)?;
        for (i, a) in acts.iter().enumerate() {
            if let (Base::Join, 2) = (self, i) {
                // coin numbers depend on transaction ids: spend everything there is
                let n = h.coins(1).len() as u32;
                let Act::Pay { from, to, c, val, method, ben, deliver, .. } = a.clone() else { unreachable!() };
                h.apply(&Act::Pay { from, to, c, val, coins: (1 << n) - 1, method, ben, deliver })?;
                continue;
            }
            if let (Base::Chain, 1) | (Base::Held, 1) | (Base::Shared, 1) = (self, i) {
                let Act::Pay { from, to, c, val, method, ben, deliver, .. } = a.clone() else { unreachable!() };
                let n = h.coins(from).len() as u32;
                h.apply(&Act::Pay { from, to, c, val, coins: (1 << n) - 1, method, ben, deliver })?;
                continue;
            }
            h.apply(a)?;
        }
        if let Base::Docs = self {
            // the transaction made by the root
            let mut all: Vec<Txid> = h.w.chain.ord.keys().copied().filter(|t| !h.txs.contains(t)).collect();
            all.extend(h.txs.clone());
            h.txs = all;
        }
        h.check_state()?;
        Ok(h)
    }
}

#[derive(Clone, Debug)]
enum U {
    /// Status of a transaction changes (if given), then wallets update.
    Upd { set: Option<(usize, St)>, fail: Fail, after: u32, who: u8 },
    Deliver(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fail {
    None,
    One(usize),
    All,
    /// The backend does not know the transaction.
    Unknown(usize),
}

impl Display for U {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            U::Upd { set, fail, after, who } => {
                match set {
                    Some((k, St::Mined(h))) => write!(f, "tx{k}=mined{h}")?,
                    Some((k, st)) => write!(f, "tx{k}={}", format!("{st:?}").to_lowercase())?,
                    None => write!(f, "update")?,
                }
                match fail {
                    Fail::None => {}
                    Fail::One(k) => write!(f, ",fail{k}")?,
                    Fail::All => write!(f, ",failall")?,
                    Fail::Unknown(k) => write!(f, ",unknown{k}")?,
                }
                if *after > 0 {
                    write!(f, ",after{after}")?;
                }
                if *who != 3 {
                    write!(f, ",who{who}")?;
                }
                Ok(())
            }
            U::Deliver(k) => write!(f, "deliver{k}"),
        }
    }
}

struct P05 {
    wide: bool,
}

fn update(ctx: &Ctx, h: &mut Hist, fail: Fail, after: u32, who: u8) -> R {
    let mut chain = h.w.chain.clone();
    match fail {
        Fail::None => {}
        Fail::One(k) => {
            chain.failing.insert(h.txs[k]);
        }
        Fail::All => chain.failing.extend(h.txs.iter().copied()),
        Fail::Unknown(k) => {
            chain.ord.remove(&h.txs[k]);
        }
    }
    for (i, w) in h.w.wallets.iter_mut().enumerate() {
        if who & (1 << i) == 0 {
            continue;
        }
        let due: BTreeSet<Txid> = w
            .ledger
            .ords
            .iter()
            .filter(|(_, o)| !matches!(o, vm::WitnessOrd::Mined(pos) if pos.height().get() < after.max(1)))
            .map(|x| *x.0)
            .collect();
        let bad: BTreeSet<Txid> =
            due.iter().copied().filter(|t| chain.failing.contains(t) || !chain.ord.contains_key(t)).collect();
        w.ledger.refresh(&chain, after);
        let res = w.stock.update_witnesses(&chain, after).sut("update_witnesses")?;
        let failed: BTreeSet<Txid> = res
            .failed
            .keys()
            .map(|x| match x {
                XChain::Bitcoin(t) => *t,
                _ => panic!("bitcoin only"),
            })
            .collect();
        ensure!(failed == bad, "failed-report", "failed queries {bad:?}, reported {failed:?}");
        ensure!(
            res.succeeded == due.len() - bad.len(),
            "succeeded-report",
            "wallet {i}: {} witnesses updated, {} reported",
            due.len() - bad.len(),
            res.succeeded
        );
        ctx.outcome(if bad.is_empty() { "update-ok" } else { "update-with-failures" });
    }
    Ok(())
}

fn verify(h: &Hist) -> R {
    h.check_state()?;
    for (i, w) in h.w.wallets.iter().enumerate() {
        for id in contract_ids(&w.stock)? {
            let st = w.stock.contract_state(id).sut("contract_state")?;
            for txid in &h.txs {
                // statuses reported for the witnesses of the contract
                let relevant = w.ledger.ops.iter().any(|(opid, op)| {
                    op.contract == id && !op.outs.is_empty() && w.ledger.wit.get(opid).map(|s| s.contains(txid)).unwrap_or(false)
                });
                if relevant {
                    let got = st.witness_ord(xw(*txid));
                    ensure!(
                        got == w.ledger.ords.get(txid).copied(),
                        "witness-status",
                        "wallet {i}: witness has status {got:?} instead of {:?}",
                        w.ledger.ords.get(txid)
                    );
                }
            }
        }
    }
    Ok(())
}

impl Space for P05 {
    type Root = Base;
    type S = Hist;
    type A = U;
    fn init(&self, root: &Base) -> R<Hist> { root.build() }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<U> {
        let mut v = vec![];
        for (k, txid) in s.txs.iter().enumerate() {
            for st in [St::Arch, St::Tent, St::Mined(5), St::Mined(9)] {
                if s.w.chain.ord[txid] == st.ord() {
                    continue;
                }
                v.push(U::Upd { set: Some((k, st)), fail: Fail::None, after: 0, who: 3 });
                v.push(U::Upd { set: Some((k, st)), fail: Fail::None, after: 7, who: 3 });
                v.push(U::Upd { set: Some((k, st)), fail: Fail::One(k), after: 0, who: 3 });
                if self.wide {
                    v.push(U::Upd { set: Some((k, st)), fail: Fail::One((k + 1) % s.txs.len()), after: 7, who: 3 });
                    v.push(U::Upd { set: Some((k, st)), fail: Fail::None, after: 0, who: 1 });
                    v.push(U::Upd { set: Some((k, st)), fail: Fail::None, after: 5, who: 2 });
                }
            }
        }
        v.push(U::Upd { set: None, fail: Fail::None, after: 0, who: 3 });
        v.push(U::Upd { set: None, fail: Fail::All, after: 0, who: 3 });
        v.push(U::Upd { set: None, fail: Fail::Unknown(0), after: 0, who: 3 });
        for (k, p) in s.pays.iter().enumerate() {
            let from = &s.w.wallets[p.0.from];
            if !p.3 && from.ledger.ords.values().all(|o| *o != vm::WitnessOrd::Archived) {
                v.push(U::Deliver(k));
            }
        }
        v
    }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &U) -> R {
        match a {
            U::Upd { set, fail, after, who } => {
                if let Some((k, st)) = set {
                    s.w.chain.ord.insert(s.txs[*k], st.ord());
                }
                update(ctx, s, *fail, *after, *who)?;
            }
            U::Deliver(k) => {
                s.deliver(*k)?;
                ctx.outcome("deliver");
            }
        }
        let hidden = s.w.wallets.iter().any(|w| w.ledger.ords.values().any(|o| *o == vm::WitnessOrd::Archived));
        ctx.outcome(if hidden { "some-archived" } else { "none-archived" });
        verify(s)
    }
    fn canon(&self, s: &Hist) -> String {
        // the rest of a stock depends on deliveries only
        let states: Vec<u64> =
            s.w.wallets.iter().map(|w| crate::core::fnv(&bytes(w.stock.as_state_provider()))).collect();
        format!("{states:?}{:?}{:?}", s.w.chain.ord, s.pays.iter().map(|p| p.3).collect::<Vec<_>>())
    }
    fn complete_canon(&self) -> bool { true }
}

pub fn check(ctx: &Ctx) -> i32 {
    let roots = [Base::Chain, Base::Shared, Base::Docs, Base::Held, Base::Join];
    if ctx.thorough {
        explore(ctx, &P05 { wide: false }, &roots, 4);
        explore(ctx, &P05 { wide: true }, &roots, 3);
    } else {
        explore(ctx, &P05 { wide: false }, &roots[..4], 3);
        explore(ctx, &P05 { wide: true }, &roots, 2);
    }
    ctx.finish(
        "model_checking",
        "all sequences of status updates (each status for each witness, query failures, cut-off heights, wallets updated separately, late deliveries) up to the depth after five base histories; state of each wallet compared with the reference ledger",
        &["statuses archived, tentative, mined at heights 5 and 9; cut-offs 0, 5, 7"],
    )
}

