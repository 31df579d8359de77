//! Confluence: the parcels cut from each history are delivered to a newcomer
//! in all orders and with all repetitions.

use bp::Outpoint;
use rgbstd::*;

use crate::core::{Ctx, R};
use crate::explore::{explore, Space};
use crate::lab::*;

#[derive(Clone)]
struct S {
    h: Hist,
    parcels: Vec<Parcel>,
}

struct P03 {
    menu: Menu,
    /// Parcels delivered in all orders, and the length of the sequences.
    limit: usize,
    max: usize,
    /// Depth from which deliveries are explored.
    from: usize,
    wallets: usize,
}

fn parcel(s: &mut S, name: String, item: Item) {
    // a payment is exported by its secret seal only by those who got it concealed
    let tag = if name.starts_with("paid") { 1 << s.parcels.len() } else { 0 };
    s.parcels.push(Parcel { name, item, needs: vec![], tag });
}

fn cut(s: &mut S, step: usize, fresh: &[Outpoint]) -> R {
    // exports by the payer of what was just paid, and by whoever sees the outputs
    if let Some((p, _, c, _)) = s.h.pays.last().cloned() {
        if s.h.txs.last() == Some(&p.tx.txid()) {
            let cid = s.h.w.contracts[c];
            let t = s.h.w.transfer(p.from, cid, &p.outputs, p.secret)?;
            let v = s.h.w.validate(t)?;
            parcel(s, format!("paid{step}"), Item::Transfer(v));
        }
    }
    for w in 0..s.h.w.wallets.len() {
        for (ci, cid) in s.h.w.contracts.clone().into_iter().enumerate() {
            let outs: Vec<Outpoint> = s
                .h
                .coins(w)
                .into_iter()
                .filter(|o| fresh.contains(o) && !s.h.at(w, cid, &[*o]).is_empty())
                .collect();
            for o in outs {
                let t = s.h.w.transfer(w, cid, &[oseal(OP, o)], None)?;
                let v = s.h.w.validate(t)?;
                parcel(s, format!("own{step}.{w}.{ci}.{}", o.vout), Item::Transfer(v));
            }
        }
    }
    Ok(())
}

impl Space for P03 {
    type Root = Root;
    type S = S;
    type A = Act;
    fn init(&self, root: &Root) -> R<S> {
        let h = Hist::new(root, self.wallets)?;
        let mut s = S { h, parcels: vec![] };
        for (ci, cid) in s.h.w.contracts.clone().into_iter().enumerate() {
            let c = export(&s.h.w.wallets[0].stock, cid)?;
            let v = c.validate(&s.h.w.chain, true).map_err(|(s, _)| s);
            let v = crate::core::Sut::sut(v, "validate exported contract")?;
            parcel(&mut s, format!("contract{ci}"), Item::Contract(v));
        }
        Ok(s)
    }
    fn fork(&self, s: &S) -> S { s.clone() }
    fn actions(&self, s: &S, _: usize) -> Vec<Act> { s.h.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut S, a: &Act) -> R {
        let before: Vec<Outpoint> = (0..self.wallets).flat_map(|w| s.h.coins(w)).collect();
        let known: Vec<XChain<GraphSeal>> = seals(&s.h);
        s.h.apply(a)?;
        let fresh: Vec<Outpoint> =
            (0..self.wallets).flat_map(|w| s.h.coins(w)).filter(|o| !before.contains(o)).collect();
        let step = s.h.txs.len();
        for (i, x) in seals(&s.h).into_iter().filter(|x| !known.contains(x)).enumerate() {
            parcel(s, format!("seal{step}.{i}"), Item::Seal(x));
        }
        cut(s, step, &fresh)?;
        if step >= self.from {
            // the latest parcels are the largest, the earliest are contained in them
            let n = s.parcels.len();
            let mut sel: Vec<Parcel> = s.parcels.clone();
            if n > self.limit {
                let head = self.limit / 3;
                sel = s.parcels[..head].iter().chain(&s.parcels[n - (self.limit - head)..]).cloned().collect();
            }
            deliveries(ctx, &Node::fresh()?, &sel, &s.h.w.chain, self.max, &[], true)?;
        }
        Ok(())
    }
    fn canon(&self, s: &S) -> String { s.h.canon() }
}

fn seals(h: &Hist) -> Vec<XChain<GraphSeal>> {
    h.w.wallets.iter().flat_map(|w| w.ledger.secrets.values().map(|s| XChain::Bitcoin(*s))).collect()
}

pub fn check(ctx: &Ctx) -> i32 {
    let blind = Menu { bens: vec![Ben::Blind(OP)], ..Menu::default() };
    let vouts = Menu { bens: vec![Ben::Vout(TAP)], methods: vec![TAP], ..Menu::default() };
    let sweep = Menu { bens: vec![Ben::Blind(OP)], sweep: true, all_coins: false, tokens: false, ..Menu::default() };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin];
    if ctx.thorough {
        explore(ctx, &P03 { menu: blind.clone(), limit: 6, max: 12, from: 1, wallets: 2 }, &roots, 2);
        explore(ctx, &P03 { menu: vouts, limit: 6, max: 12, from: 1, wallets: 2 }, &roots, 2);
        explore(ctx, &P03 { menu: sweep, limit: 6, max: 12, from: 2, wallets: 2 }, &roots, 2);
        explore(ctx, &P03 { menu: Menu { tokens: false, all_coins: false, ..blind }, limit: 7, max: 14, from: 3, wallets: 2 }, &roots[..1], 3);
    } else {
        explore(ctx, &P03 { menu: blind, limit: 4, max: 8, from: 2, wallets: 2 }, &roots[..2], 2);
        explore(ctx, &P03 { menu: vouts, limit: 4, max: 8, from: 1, wallets: 2 }, &roots[2..], 1);
        explore(ctx, &P03 { menu: sweep, limit: 4, max: 8, from: 1, wallets: 2 }, &roots, 1);
    }
    ctx.finish(
        "model_checking",
        if ctx.thorough {
            "for every history of up to two steps (one root: three): all sequences, with repetitions and of up to 12 (14), of deliveries of six (seven) of the parcels cut from it to an empty stock; after each delivery the state equals the reference ledger, and exports depend only on what is known"
        } else {
            "for histories of one or two steps: all sequences, with repetitions and of up to eight, of deliveries of four of the parcels cut from it to an empty stock; after each delivery the state equals the reference ledger, and exports depend only on what is known"
        },
        &["of more parcels than stated the first third and the last two thirds are taken: earliest parcels are contained in the latest", "statuses of transactions do not change during the deliveries", "a disclosed seal takes effect with the next delivery naming it"],
    )
}
