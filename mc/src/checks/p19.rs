//! Blinded seals: all orders of storing, paying, delivering and re-delivering
//! over several seals, contracts and wallets.

use std::fmt::{self, Display};

use bp::Outpoint;
use commit_verify::Conceal;
use rgbstd::containers::{ConsignmentExt, Transfer};
use rgbstd::invoice::Beneficiary;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;

use super::p01::newcomer;
use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

#[derive(Clone, Copy, Debug)]
struct Base {
    root: Root,
}
impl Display for Base {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.root) }
}

#[derive(Clone, Debug)]
enum A {
    Store { w: usize, seal: usize },
    /// Payment in a contract to the seal; the second form pays both contracts
    /// by one transaction.
    Pay { c: usize, seal: usize },
    PayAll { seal: usize },
    Deliver { k: usize, w: usize, change: bool },
}
impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Store { w, seal } => write!(f, "store{w}:s{seal}"),
            A::Pay { c, seal } => write!(f, "pay:c{c}:s{seal}"),
            A::PayAll { seal } => write!(f, "payall:s{seal}"),
            A::Deliver { k, w, change } => write!(f, "deliver{k}>{w}{}", if *change { "+change" } else { "" }),
        }
    }
}

#[derive(Clone)]
struct Made {
    c: usize,
    seal: usize,
    ids: Vec<OpId>,
    change: Vec<XOutputSeal>,
}

struct S {
    h: Hist,
    seals: Vec<XChain<GraphSeal>>,
    pays: Vec<Made>,
    stored: Vec<(usize, usize)>,
}

struct P19 {
    wallets: usize,
    seals: usize,
    all: bool,
}

fn at(seal: &XChain<GraphSeal>) -> Outpoint {
    match seal {
        XChain::Bitcoin(s) => Outpoint::new(s.txid().expect("own output"), s.vout),
        _ => panic!("bitcoin only"),
    }
}

/// Whether the consignment discloses the output behind the seal.
fn discloses(t: &Transfer, seal: &XChain<GraphSeal>) -> bool {
    t.bundled_witnesses().any(|wb| {
        wb.anchored_bundles
            .bundles()
            .any(|b| b.known_transitions.values().any(|t| t.assignments.values().any(|a| a.iter_seals().contains(seal))))
    })
}

trait Seals {
    fn iter_seals(&self) -> Vec<XChain<GraphSeal>>;
}
impl Seals for TypedAssigns<GraphSeal> {
    fn iter_seals(&self) -> Vec<XChain<GraphSeal>> {
        (0..self.len_u16()).filter_map(|i| self.revealed_seal_at(i).ok().flatten()).collect()
    }
}

impl P19 {
    fn invoice_ops(&self, s: &mut S, c: usize, seal: usize, coins: &[Outpoint]) -> R<Vec<Op>> {
        let cid = s.h.w.contracts[c];
        let secret = match s.seals[seal].conceal() {
            XChain::Bitcoin(x) => x,
            _ => panic!(),
        };
        let inv = make_invoice(cid, Beneficiary::BlindedSeal(secret), &Val::Asset(3 + s.pays.len() as u64 % 5));
        let batch = s.h.w.compose(0, &inv, coins, OP, Ben::Blind(OP))?;
        Ok(batch_ops(batch))
    }
    fn commit(&self, s: &mut S, ops: Vec<Op>, paid: &[usize], seal: usize) -> R {
        let (tx, _) = s.h.w.broadcast(0, &ops, 0, WitnessOrd::Tentative)?;
        s.h.txs.push(tx.txid());
        let coins = &mut s.h.w.wallets[0].coins;
        for op in &ops {
            coins.retain(|c| !op.inputs.contains(c));
        }
        let o = Outpoint::new(tx.txid(), bp::Vout::from_u32(1));
        coins.insert(o);
        for c in paid {
            let cid = s.h.w.contracts[*c];
            let change = if s.h.at(0, cid, &[o]).is_empty() { vec![] } else { vec![oseal(OP, o)] };
            // the operation paying, not those keeping other state
            let secret = s.seals[seal].conceal();
            let pays = |o: &&Op| {
                o.contract == cid
                    && o.transition.assignments.values().any(|a| {
                        (0..a.len_u16()).any(|i| a.to_confidential_seals().get(i as usize) == Some(&secret))
                    })
            };
            let ids = ops.iter().filter(pays).map(|o| o.transition.id()).collect();
            s.pays.push(Made { c: *c, seal, ids, change });
        }
        Ok(())
    }
    fn holding(&self, s: &S, c: usize) -> Vec<Outpoint> {
        let cid = s.h.w.contracts[c];
        let asset = if s.h.sch(cid) == Sch::Alpha { OS_ASSET } else { B_ASSET };
        s.h.coins(0).into_iter().filter(|o| s.h.total(0, cid, &[*o], asset) > 8).collect()
    }
}

impl Space for P19 {
    type Root = Base;
    type S = S;
    type A = A;
    fn init(&self, root: &Base) -> R<S> {
        let mut h = Hist::new(&root.root, self.wallets)?;
        let mut seals = vec![];
        for i in 0..self.seals {
            let o = h.w.fund(1);
            // the second seal is over the same output, with another blinding
            let o = if i == 1 { at(&seals[0]) } else { o };
            seals.push(bseal(if i == 2 { TAP } else { OP }, o, 7000 + i as u64));
        }
        Ok(S { h, seals, pays: vec![], stored: vec![] })
    }
    fn fork(&self, s: &S) -> S {
        S { h: s.h.clone(), seals: s.seals.clone(), pays: s.pays.clone(), stored: s.stored.clone() }
    }
    fn actions(&self, s: &S, _: usize) -> Vec<A> {
        let mut v = vec![];
        for w in 0..self.wallets {
            for seal in 0..self.seals {
                if !s.stored.contains(&(w, seal)) {
                    v.push(A::Store { w, seal });
                }
            }
        }
        for seal in 0..self.seals {
            for c in 0..s.h.w.contracts.len() {
                if !self.holding(s, c).is_empty() {
                    v.push(A::Pay { c, seal });
                }
            }
            if self.all && s.h.w.contracts.len() > 1 && (0..2).all(|c| !self.holding(s, c).is_empty()) {
                v.push(A::PayAll { seal });
            }
        }
        for k in 0..s.pays.len() {
            for w in 0..self.wallets {
                v.push(A::Deliver { k, w, change: false });
                if self.all && w != 0 && !s.pays[k].change.is_empty() {
                    v.push(A::Deliver { k, w, change: true });
                }
            }
        }
        v
    }
    fn step(&self, ctx: &Ctx, s: &mut S, a: &A) -> R {
        match a {
            A::Store { w, seal } => {
                let x = s.seals[*seal];
                let new = s.h.w.wallets[*w].stock.store_secret_seal(x).sut("store_secret_seal")?;
                let again = s.h.w.wallets[*w].stock.store_secret_seal(x).sut("store_secret_seal")?;
                ensure!(!(new && again), "store-again", "seal stored twice is reported as new");
                s.h.w.wallets[*w].ledger.secret(x);
                s.stored.push((*w, *seal));
            }
            A::Pay { c, seal } => {
                let coins = self.holding(s, *c);
                let ops = self.invoice_ops(s, *c, *seal, &coins[..1])?;
                self.commit(s, ops, &[*c], *seal)?;
            }
            A::PayAll { seal } => {
                // both contracts pay to the same seal in one transaction
                let (x, y) = (self.holding(s, 0), self.holding(s, 1));
                let both: Vec<Outpoint> = if x[0] == y[0] { vec![x[0]] } else { vec![x[0], y[0]] };
                let (c0, c1) = (s.h.w.contracts[0], s.h.w.contracts[1]);
                let mut ops: Vec<Op> =
                    self.invoice_ops(s, 0, *seal, &both)?.into_iter().filter(|o| o.contract == c0).collect();
                ops.extend(self.invoice_ops(s, 1, *seal, &both)?.into_iter().filter(|o| o.contract == c1));
                self.commit(s, ops, &[0, 1], *seal)?;
            }
            A::Deliver { k, w, change } => {
                let p = s.pays[*k].clone();
                let cid = s.h.w.contracts[p.c];
                let seal = s.seals[p.seal];
                let outs = if *change { p.change.clone() } else { vec![] };
                // a payer who learned the seal by accepting the payment knows it by output
                let knows = !s.h.at(0, cid, &[at(&seal)]).is_empty();
                if knows {
                    ctx.outcome("payer-knows");
                    return Ok(());
                }
                let t = s.h.w.transfer(0, cid, &outs, Some(seal.conceal()))?;
                ensure!(!discloses(&t, &seal), "seal-disclosed", "the payer's consignment discloses the blinded output");
                s.h.w.accept(*w, t)?;
                if s.stored.contains(&(*w, p.seal)) {
                    // everything ever paid to the seal arrives, not only the last payment
                    let seen: Vec<OpId> = s.h.w.wallets[*w]
                        .ledger
                        .visible()
                        .into_iter()
                        .filter(|x| x.0 == cid && x.5 == at(&seal))
                        .map(|x| x.1)
                        .collect();
                    let paid: Vec<&OpId> =
                        s.pays.iter().filter(|x| (x.c, x.seal) == (p.c, p.seal)).flat_map(|x| &x.ids).collect();
                    ensure!(!paid.is_empty(), "vacuous", "no operation pays to the seal");
                    for id in &paid {
                        ensure!(seen.contains(id), "payment-missing", "a payment to the seal doesn't reach its owner");
                    }
                    if paid.len() > 1 {
                        ctx.outcome("seal-reused");
                    }
                }
                ctx.outcome(if s.stored.contains(&(*w, p.seal)) { "deliver-stored" } else { "deliver-unknown" });
            }
        }
        s.h.check_state()?;
        // whoever sees the state can pass it on
        for w in 0..self.wallets {
            for seal in &s.seals {
                for cid in &s.h.w.contracts {
                    let o = at(seal);
                    let here: Vec<_> = s.h.w.wallets[w].ledger.visible().into_iter().filter(|x| x.0 == *cid && x.5 == o).collect();
                    if here.is_empty() {
                        continue;
                    }
                    let t = s.h.w.transfer(w, *cid, &[oseal(OP, o)], None)?;
                    let (stock, ledger) = newcomer(&s.h, t, None)?;
                    let got = all_lines(&stock)?;
                    if let Some(d) = diff(&got, &ledger.lines()) {
                        fail!("recipient-state", "{d}");
                    }
                    for x in here {
                        let l = line(x.0, x.1, x.2, x.3, x.4, x.5, &x.6);
                        ensure!(got.contains(&l), "owner-export", "state {l} is missing in the owner's export");
                    }
                    ctx.outcome("owner-export");
                }
            }
        }
        Ok(())
    }
    fn canon(&self, s: &S) -> String { format!("{}{:?}", s.h.canon(), s.stored) }
}

pub fn check(ctx: &Ctx) -> i32 {
    let one = [Base { root: Root::One(OP) }, Base { root: Root::TwoMethods }];
    let two = [Base { root: Root::Shared }];
    if ctx.thorough {
        explore(ctx, &P19 { wallets: 2, seals: 2, all: false }, &one, 4);
        explore(ctx, &P19 { wallets: 3, seals: 3, all: true }, &two, 3);
        explore(ctx, &P19 { wallets: 2, seals: 1, all: false }, &one[..1], 6);
        explore(ctx, &P19 { wallets: 2, seals: 1, all: true }, &two, 4);
    } else {
        explore(ctx, &P19 { wallets: 2, seals: 2, all: false }, &one[..1], 4);
        explore(ctx, &P19 { wallets: 2, seals: 1, all: true }, &two, 3);
        explore(ctx, &P19 { wallets: 3, seals: 3, all: true }, &two, 2);
    }
    ctx.finish(
        "model_checking",
        "all sequences of storing seals, paying to them in one or two contracts, delivering and re-delivering to each wallet (the payer included) up to the depth; state compared with the reference ledger and re-exported by every holder",
        &["up to three seals, two of them over one output", "a seal stored after a delivery takes effect with the next delivery"],
    )
}
