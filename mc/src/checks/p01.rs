//! Exported transfers are complete: after every history every holding is
//! exported, validated and accepted by a party knowing nothing but the chain.

use std::collections::BTreeSet;

use bp::Outpoint;
use rgbstd::persistence::Stock;
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

struct P01 {
    menu: Menu,
}

/// Seals at the given outpoints, by the ledger.
pub fn seals_at(h: &Hist, w: usize, c: ContractId, coins: &[Outpoint]) -> Vec<XOutputSeal> {
    let mut set = BTreeSet::new();
    for (cid, _, _, _, m, o, _) in h.w.wallets[w].ledger.visible() {
        if cid == c && coins.contains(&o) {
            set.insert((m, o));
        }
    }
    set.into_iter().map(|(m, o)| oseal(if m == 0 { OP } else { TAP }, o)).collect()
}

/// Accepts a transfer with a new stock.
pub fn newcomer(h: &Hist, t: rgbstd::containers::Transfer, seal: Option<XChain<GraphSeal>>) -> R<(Stock, Ledger)> {
    let mut stock = fresh_stock()?;
    let mut ledger = Ledger::default();
    if let Some(seal) = seal {
        stock.store_secret_seal(seal).sut("store_secret_seal")?;
        ledger.secret(seal);
    }
    let valid = h.w.validate(t)?;
    ledger.consignment(&valid, &h.w.chain);
    stock.accept_transfer(valid, &h.w.chain).sut("accept by newcomer")?;
    Ok((stock, ledger))
}

fn at_lines(stock: &Stock, c: ContractId, coins: &[Outpoint]) -> R<Vec<String>> {
    let keys: Vec<String> = coins.iter().map(|o| format!(":{o} ")).collect();
    Ok(contract_lines(stock, c)?.into_iter().filter(|l| keys.iter().any(|k| l.contains(k))).collect())
}

fn exports(ctx: &Ctx, h: &Hist) -> R {
    for w in 0..h.w.wallets.len() {
        for (ci, c) in h.w.contracts.iter().enumerate() {
            let coins: Vec<Outpoint> =
                h.coins(w).into_iter().filter(|o| !h.at(w, *c, &[*o]).is_empty()).collect();
            if coins.is_empty() {
                continue;
            }
            let mut sets: Vec<Vec<Outpoint>> = coins.iter().map(|o| vec![*o]).collect();
            if coins.len() > 1 {
                sets.push(coins.clone());
            }
            for set in sets {
                ctx.outcome("export-by-output");
                let t = h.w.transfer(w, *c, &seals_at(h, w, *c, &set), None)?;
                ensure!(t.transfer && t.terminals.is_empty(), "terminals", "transfer by outputs carries terminals");
                let (stock, _) = newcomer(h, t, None)?;
                let keys: Vec<String> = set.iter().map(|o| format!(":{o} ")).collect();
                let want: Vec<String> = h.w.wallets[w]
                    .ledger
                    .lines()
                    .into_iter()
                    .filter(|l| l.starts_with(&short(*c)) && keys.iter().any(|k| l.contains(k)))
                    .collect();
                let got = at_lines(&stock, *c, &set)?;
                if let Some(d) = diff(&got, &want) {
                    fail!("holding-differs", "wallet {w} contract {ci}: {d}");
                }
                // ...and it is spendable there
                let total = h.total(w, *c, &set, if h.sch(*c) == Sch::Alpha { OS_ASSET } else { B_ASSET });
                if total > 0 {
                    let mut n = h.w.clone();
                    n.wallets[w].stock = stock;
                    n.pay(w, w, *c, &Val::Asset(total), &set, OP, Ben::Vout(OP))?;
                    ctx.outcome("spent-by-newcomer");
                }
            }
        }
    }
    for (k, (p, to, ci, delivered)) in h.pays.iter().enumerate() {
        let c = h.w.contracts[*ci];
        let Some(secret) = p.secret else { continue };
        let seal = match secret {
            XChain::Bitcoin(s) => h.w.wallets[*to].ledger.secrets[&s],
            _ => panic!("bitcoin only"),
        };
        let at = seal.plain().at(None);
        let from = p.from;
        {
            let with: Vec<XOutputSeal> = seals_at(h, from, c, &h.coins(from));
            for outputs in [vec![], with] {
                ctx.outcome("export-by-secret");
                let t = h.w.transfer(from, c, &outputs, Some(secret))?;
                ensure!(
                    t.terminals.values().any(|s| *s == secret),
                    "terminal-missing",
                    "requested blinded seal is not among the terminals"
                );
                let (stock, _) = newcomer(h, t.clone(), Some(XChain::Bitcoin(seal)))?;
                let got = at_lines(&stock, c, &[at])?;
                let mut want: Vec<String> = h.w.wallets[*to]
                    .ledger
                    .lines()
                    .into_iter()
                    .filter(|l| l.starts_with(&short(c)) && l.contains(&format!(":{at} ")))
                    .collect();
                if !delivered {
                    // compare with what the payee will see
                    let mut h2 = h.clone();
                    h2.deliver(k)?;
                    want = h2.w.wallets[*to]
                        .ledger
                        .lines()
                        .into_iter()
                        .filter(|l| l.starts_with(&short(c)) && l.contains(&format!(":{at} ")))
                        .collect();
                }
                if let Some(d) = diff(&got, &want) {
                    fail!("blinded-holding-differs", "payment to {to}: {d}");
                }
                ensure!(!got.is_empty(), "blinded-holding-absent", "nothing received at the blinded seal");
                let got = {
                    let (stock, ledger) = newcomer(h, t, None)?;
                    if let Some(d) = diff(&all_lines(&stock)?, &ledger.lines()) {
                        fail!("newcomer-state", "{d}");
                    }
                    at_lines(&stock, c, &[at])?
                };
                let exposed = h.w.wallets[from].ledger.visible().iter().any(|x| x.0 == c && x.5 == at);
                if !exposed {
                    ensure!(got.is_empty(), "blinded-holding-exposed", "blinded seal visible without its secret: {got:?}");
                }
            }
        }
    }
    Ok(())
}

impl Space for P01 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        s.apply(a)?;
        exports(ctx, s)
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

pub fn check(ctx: &Ctx) -> i32 {
    let roots = [Root::One(OP), Root::One(TAP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    let wide = P01 {
        menu: Menu {
            methods: vec![OP, TAP],
            bens: vec![Ben::Blind(OP), Ben::Vout(OP), Ben::Blind(TAP), Ben::Vout(TAP)],
            parts: vec![(1, 2), (1, 1)],
            hold: true,
            sweep: true,
            fan: true,
            bonus: true,
            ..Menu::default()
        },
    };
    explore(ctx, &wide, &roots, 1);
    let deep = |sweep: bool| P01 {
        menu: Menu {
            bens: vec![Ben::Blind(OP), Ben::Vout(TAP)],
            each_coin: false,
            sweep,
            tokens: false,
            ..Menu::default()
        },
    };
    explore(ctx, &deep(true), &roots, if ctx.thorough { 3 } else { 2 });
    explore(ctx, &deep(false), &[Root::TwoMethods], 3);
    let fan = P01 { menu: Menu { bens: vec![], fan: true, sweep: true, ..Menu::default() } };
    explore(ctx, &fan, if ctx.thorough { &roots } else { &roots[..1] }, 2);
    if ctx.thorough {
        let each = P01 { menu: Menu { methods: vec![OP, TAP], hold: true, ..Menu::default() } };
        explore(ctx, &each, &[Root::One(OP), Root::TwoMethods, Root::Twin], 2);
    }
    ctx.finish(
        "model_checking",
        "all payment histories up to the depth; after each step every holding is exported by output, by all outputs and by blinded seal, validated against the chain only, accepted by an empty stock and compared with the reference ledger",
        &["witness transactions stay valid (archived witnesses are covered by P05 and P29)", "two wallets, up to two contracts"],
    )
}
