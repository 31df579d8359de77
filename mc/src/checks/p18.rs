//! Lookups by output against a scan of the reference ledger, for all subsets
//! of outputs after every history.

use std::collections::BTreeSet;

use amplify::Wrapper;
use bp::{Outpoint, Vout};
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::explore::explore;
use crate::lab::*;

fn show(s: &PersistedState) -> String {
    use amplify::hex::ToHex;
    match s {
        PersistedState::Void => "right".into(),
        PersistedState::Amount(v, b, t) => format!("{}/{b}/{}", v.value(), t.to_hex()),
        PersistedState::Data(d, salt) => format!("{}/{salt}", AsRef::<[u8]>::as_ref(d).to_hex()),
        PersistedState::Attachment(a, salt) => format!("{}/{}/{salt}", a.id, a.media_type),
    }
}

fn found(stock: &Stock, c: ContractId, set: &[Outpoint]) -> R<Vec<String>> {
    let mut v = vec![];
    let named: Vec<XOutpoint> = set.iter().map(|o| xo(*o)).collect();
    for (seal, list) in stock.contract_assignments_for(c, named).sut("contract_assignments_for")? {
        let (m, o) = match seal {
            XChain::Bitcoin(s) => (s.method as u8, Outpoint::new(s.txid, s.vout)),
            _ => panic!("bitcoin only"),
        };
        ensure!(!list.is_empty(), "empty-entry", "an output without state is listed: {o}");
        for (opout, st) in list {
            v.push(line(c, opout.op, opout.ty.to_inner(), opout.no, m, o, &show(&st)));
        }
    }
    v.sort();
    Ok(v)
}

pub fn inspect(ctx: &Ctx, h: &Hist) -> R {
    for w in &h.w.wallets {
        let vis = w.ledger.visible();
        // everything ever assigned, whatever the status of the witness
        let mut all = BTreeSet::new();
        for (opid, op) in &w.ledger.ops {
            for (seal, _) in op.outs.values() {
                if op.genesis {
                    all.insert((op.contract, seal.at(None)));
                }
                for t in w.ledger.wit.get(opid).into_iter().flatten() {
                    all.insert((op.contract, seal.at(Some(*t))));
                }
            }
        }
        let mut outs: BTreeSet<Outpoint> = all.iter().map(|x| x.1).collect();
        for x in &h.w.wallets {
            outs.extend(x.coins.iter().copied());
        }
        outs.insert(Outpoint::new(fund_txid(99), Vout::from_u32(0)));
        if let Some(o) = outs.iter().next().copied() {
            outs.insert(Outpoint::new(o.txid, Vout::from_u32(7)));
        }
        let outs: Vec<Outpoint> = outs.into_iter().collect();
        for set in subsets(&outs, 6) {
            ctx.outcome("lookups");
            let visible: BTreeSet<ContractId> = vis.iter().filter(|x| set.contains(&x.5)).map(|x| x.0).collect();
            let known: BTreeSet<ContractId> = all.iter().filter(|x| set.contains(&x.1)).map(|x| x.0).collect();
            let named: Vec<XOutpoint> = set.iter().map(|o| xo(*o)).collect();
            let sealed: Vec<XOutputSeal> =
                set.iter().enumerate().map(|(i, o)| oseal(if i % 2 == 0 { TAP } else { OP }, *o)).collect();
            let a: Vec<ContractId> = w.stock.contracts_assigning(named).sut("contracts_assigning")?.collect();
            let b: Vec<ContractId> = w.stock.contracts_assigning(sealed).sut("contracts_assigning")?.collect();
            ensure!(a == b, "assigning-by-seal", "contracts differ when outputs are named by seals: {a:?} {b:?}");
            let got: BTreeSet<ContractId> = a.iter().copied().collect();
            ensure!(got.len() == a.len(), "assigning-duplicates", "contracts listed twice: {a:?}");
            ensure!(
                got.is_superset(&visible) && got.is_subset(&known),
                "assigning",
                "contracts {got:?} for {set:?}, expected at least {visible:?} and at most {known:?}"
            );
            for c in contract_ids(&w.stock)? {
                let mut want: Vec<String> = vis
                    .iter()
                    .filter(|x| x.0 == c && set.contains(&x.5))
                    .map(|(c, o, t, n, m, at, val)| line(*c, *o, *t, *n, *m, *at, val))
                    .collect();
                want.sort();
                let got = found(&w.stock, c, &set)?;
                if let Some(d) = diff(&got, &want) {
                    fail!("assignments-for", "for {set:?}: {d}");
                }
            }
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let menu = Menu {
        methods: vec![OP],
        bens: vec![Ben::Blind(OP), Ben::Vout(TAP)],
        hold: true,
        sweep: true,
        bonus: true,
        each_coin: ctx.thorough,
        statuses: vec![St::Arch, St::Mined(5)],
        ..Menu::default()
    };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    explore(ctx, &Walk { menu: menu.clone(), inspect }, &roots, 2);
    if ctx.thorough {
        let deep = Menu { hold: false, ..menu };
        explore(ctx, &Walk { menu: deep, inspect }, &roots, 3);
    }
    let docs = Menu { pairs: vec![], sweep: true, notes: true, statuses: vec![St::Arch, St::Tent], ..Menu::default() };
    explore(ctx, &Walk { menu: docs, inspect }, &[Root::Docs], if ctx.thorough { 3 } else { 2 });
    ctx.finish(
        "model_checking",
        "after every history up to the depth, all subsets of the outputs (known, spent, foreign, unknown) if there are at most six, else all single ones, pairs, none and all, are looked up in every stock and compared with a scan of the reference ledger",
        &["two wallets, up to two contracts", "a contract with only archived state at an output may or may not be listed as assigning to it"],
    )
}
