//! Global state: order, limit and visibility, over all orders of publication
//! and all statuses of the publishing transactions.

use std::fmt::{self, Display};

use amplify::confinement::Confined;
use bp::{Outpoint, Vout};
use rgbstd::persistence::Stock;
use rgbstd::vm::{ContractStateAccess, WitnessOrd};
use rgbstd::*;
use std::borrow::Borrow;

use super::p01::{newcomer, seals_at};
use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// Number of values published by the genesis, and whether wallet 1 gets a coin.
#[derive(Clone, Copy)]
struct Base(usize);
impl Display for Base {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "genesis{}", self.0) }
}

#[derive(Clone, Debug)]
enum A {
    /// Publication of `n` values from a coin; the variant selects the type and
    /// nonce of the operation.
    Note { coin: usize, n: usize, var: usize },
    Status(usize, St),
    /// Another transaction for the same operation.
    Alt(usize),
}
impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Note { coin, n, var } => write!(f, "note{coin}:{n}:v{var}"),
            A::Status(k, St::Mined(h)) => write!(f, "tx{k}=mined{h}"),
            A::Status(k, st) => write!(f, "tx{k}={}", format!("{st:?}").to_lowercase()),
            A::Alt(k) => write!(f, "alt{k}"),
        }
    }
}

const VARS: [(TransitionType, u64); 3] = [(TS_MOVE, 1), (TS_TRANSFER, 9), (TS_MOVE, 0)];

struct S {
    h: Hist,
    ops: Vec<Op>,
}

struct P21 {
    vars: Vec<usize>,
    counts: Vec<usize>,
    statuses: Vec<St>,
    alts: usize,
}

fn note(v: u64) -> DataState { DataState::from(Confined::try_from(bytes(&Amount::from(v))).expect("short")) }

fn values(stock: &Stock, c: ContractId) -> R<(Vec<Vec<u8>>, Vec<Vec<u8>>)> {
    let st = stock.contract_state(c).sut("contract_state")?;
    let raw = |x: &DataState| AsRef::<[u8]>::as_ref(x).to_vec();
    let mut iter = st.global(GS_NOTE).sut("global")?;
    let before = iter.size().to_u32() as usize;
    let mut list = vec![];
    while let Some(x) = iter.next() {
        list.push(raw(x.borrow()));
        let now = iter.size().to_u32() as usize;
        ensure!(now == before, "global-size", "size {before} becomes {now} after reading {} items", list.len());
    }
    ensure!(before == list.len(), "global-size", "{} items read, {before} reported", list.len());
    let ci = stock.contract_iface(c, "LabAsset").sut("contract_iface")?;
    let named: Vec<Vec<u8>> = ci
        .global("note")
        .sut("iface global")?
        .map(|v| v.unwrap_uint::<u64>().to_le_bytes().to_vec())
        .collect();
    let spec = ci.global("spec").sut("iface global spec")?.count();
    ensure!(spec == 1, "spec-count", "{spec} specifications");
    Ok((list, named))
}

fn verify(ctx: &Ctx, stock: &Stock, l: &Ledger, c: ContractId, who: &str) -> R {
    let want = l.globals(c, GS_NOTE, NOTE_LIMIT as usize);
    let all = l.globals(c, GS_NOTE, usize::MAX);
    let (list, named) = values(stock, c)?;
    let num = |v: &[Vec<u8>]| v.iter().map(|x| u64::from_le_bytes(x[..8].try_into().unwrap())).collect::<Vec<_>>();
    ensure!(list == want, "global-list", "{who}: global values {:?}, expected {:?}", num(&list), num(&want));
    ensure!(named == want, "global-iface-list", "{who}: global values {:?}, expected {:?}", num(&named), num(&want));
    ctx.outcome(if all.len() > want.len() { "limited" } else { "within-limit" });
    Ok(())
}

impl Space for P21 {
    type Root = Base;
    type S = S;
    type A = A;
    fn init(&self, root: &Base) -> R<S> {
        let mut w = World::new(1)?;
        let notes: Vec<u64> = (0..root.0 as u64).map(|i| 10 + i).collect();
        let coins: Vec<_> = (0..3).map(|_| w.fund(0)).collect();
        let mut alloc: Vec<_> = coins.iter().enumerate().map(|(i, o)| (*o, OP, Val::Asset(10 + i as u64))).collect();
        alloc.push((coins[0], OP, Val::Right));
        let c = w.issue(0, Sch::Alpha, &notes, &alloc)?;
        let h = Hist::with(w);
        let (list, _) = values(&h.w.wallets[0].stock, c)?;
        ensure!(list.len() == root.0, "genesis-values", "{} values of {}", list.len(), root.0);
        Ok(S { h, ops: vec![] })
    }
    fn fork(&self, s: &S) -> S { S { h: s.h.clone(), ops: s.ops.clone() } }
    fn actions(&self, s: &S, _: usize) -> Vec<A> {
        let mut v = vec![];
        let c = s.h.w.contracts[0];
        for (i, o) in s.h.coins(0).iter().enumerate() {
            if s.h.at(0, c, &[*o]).is_empty() {
                continue;
            }
            for &n in &self.counts {
                for &var in &self.vars {
                    v.push(A::Note { coin: i, n, var });
                }
            }
        }
        for (k, t) in s.h.txs.iter().enumerate() {
            for st in &self.statuses {
                if s.h.w.chain.ord[t] != st.ord() {
                    v.push(A::Status(k, *st));
                }
            }
        }
        if let Some(op) = s.ops.last() {
            let id = op.transition.id();
            if s.h.w.wallets[0].ledger.wit[&id].len() <= self.alts {
                v.push(A::Alt(s.ops.len() - 1));
            }
        }
        v
    }
    fn step(&self, ctx: &Ctx, s: &mut S, a: &A) -> R {
        let c = s.h.w.contracts[0];
        match a {
            A::Note { coin, n, var } => {
                let coin = s.h.coins(0)[*coin];
                let mut ops = s.h.move_ops(0, c, coin, 1)?;
                let base = 100 * (s.ops.len() as u64 + 1);
                let (ty, nonce) = VARS[*var];
                for op in &mut ops {
                    op.transition.transition_type = ty;
                    op.transition.nonce = nonce;
                    for i in 0..*n {
                        op.transition.globals.add_state(GS_NOTE, note(base + i as u64)).sut("add_state")?;
                    }
                }
                let (tx, _) = s.h.w.broadcast(0, &ops, 0, WitnessOrd::Tentative)?;
                s.h.txs.push(tx.txid());
                s.ops.extend(ops);
                let coins = &mut s.h.w.wallets[0].coins;
                coins.remove(&coin);
                coins.insert(Outpoint::new(tx.txid(), Vout::from_u32(1)));
            }
            A::Status(k, st) => s.h.apply(&Act::Status(*k, *st))?,
            A::Alt(k) => {
                let op = s.ops[*k].clone();
                let tweak = s.h.txs.len() as u32 + 1;
                let (tx, _) = s.h.w.broadcast(0, &[op], tweak, WitnessOrd::Tentative)?;
                s.h.txs.push(tx.txid());
            }
        }
        verify(ctx, &s.h.w.wallets[0].stock, &s.h.w.wallets[0].ledger, c, "owner")?;
        // someone who received the coins reads the same from what they got
        let single = s.h.w.wallets[0].ledger.wit.values().all(|w| w.len() == 1);
        if single && s.h.w.chain.ord.values().all(|o| *o != WitnessOrd::Archived) {
            let coins = s.h.coins(0);
            let seals = seals_at(&s.h, 0, c, &coins);
            let t = s.h.w.transfer(0, c, &seals, None)?;
            let (stock, ledger) = newcomer(&s.h, t, None)?;
            verify(ctx, &stock, &ledger, c, "recipient")?;
            ctx.outcome("recipient");
        }
        Ok(())
    }
    fn canon(&self, s: &S) -> String { s.h.canon() }
}

pub fn check(ctx: &Ctx) -> i32 {
    let st = vec![St::Arch, St::Mined(5), St::Mined(3)];
    let narrow = P21 { vars: vec![0], counts: vec![1], statuses: st.clone(), alts: 1 };
    let wide = P21 { vars: vec![0, 1, 2], counts: vec![1, 2], statuses: st, alts: 2 };
    let roots = [Base(0), Base(1), Base(3)];
    if ctx.thorough {
        explore(ctx, &narrow, &[Base(0), Base(1), Base(2), Base(3)], 4);
        explore(ctx, &wide, &roots, 3);
    } else {
        explore(ctx, &narrow, &roots, 3);
        explore(ctx, &wide, &[Base(1)], 2);
        explore(ctx, &wide, &[Base(0), Base(2), Base(3)], 1);
    }
    ctx.finish(
        "model_checking",
        "all sequences of publications (types, nonces, counts), status changes and replacements up to the depth, from genesis values below and at the limit; list compared with a sorted reference",
        &["at most three values are permitted by the schema; three coins"],
    )
}
