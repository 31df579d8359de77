//! Payer and payee: each payment is taken both from the signed result and
//! from the exported consignments, and the two stocks are compared.

use std::fmt::{self, Display};

use bp::{Outpoint, Vout};
use rgbstd::containers::{Batch, CloseMethodSet};
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

#[derive(Clone)]
struct A {
    act: Act,
    prio: Option<u64>,
}
impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.act)?;
        match self.prio {
            None => Ok(()),
            Some(u64::MAX) => f.write_str(":pmax"),
            Some(p) => write!(f, ":p{p}"),
        }
    }
}

struct P24 {
    menu: Menu,
    prios: Vec<Option<u64>>,
    statuses: bool,
}

fn ids(b: &Batch, prio: Option<u64>) -> R {
    for m in [OP, TAP] {
        let used = b.clone().into_iter().any(|i| i.method == m);
        let told = match b.close_method_set() {
            CloseMethodSet::Both => true,
            CloseMethodSet::OpretFirst => m == OP,
            CloseMethodSet::TapretFirst => m == TAP,
        };
        ensure!(used == told, "batch-methods", "closing method {m} is used: {used}, stated: {told}");
    }
    for info in b.clone() {
        ensure!(
            info.id == info.transition.id(),
            "batch-id",
            "batch states id {} for transition {} (priority {prio:?})",
            info.id,
            info.transition.id()
        );
        if let Some(p) = prio {
            ensure!(info.transition.nonce == p, "batch-priority", "transition has priority {} instead of {p}", info.transition.nonce);
        }
    }
    Ok(())
}

impl Space for P24 {
    type Root = Root;
    type S = Hist;
    type A = A;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<A> {
        s.actions(&self.menu)
            .into_iter()
            .flat_map(|act| {
                let pay = matches!(act, Act::Pay { .. });
                self.prios
                    .iter()
                    .filter(move |p| pay || p.is_none())
                    .map(move |p| A { act: act.clone(), prio: *p })
            })
            .collect()
    }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &A) -> R {
        let before = s.clone();
        s.apply_with(&a.act, |mut b| {
            ids(&b, None)?;
            let n = b.clone().into_iter().count();
            let inputs: Vec<_> = b.clone().into_iter().map(|i| (i.inputs, i.method)).collect();
            if let Some(p) = a.prio {
                b.set_priority(p);
                ids(&b, Some(p))?;
                let after: Vec<_> = b.clone().into_iter().map(|i| (i.inputs, i.method)).collect();
                ensure!(n == after.len() && inputs == after, "batch-inputs", "priority changes the inputs of the batch");
            }
            Ok(b)
        })?;
        s.check_state()?;
        if s.txs.len() == before.txs.len() {
            return Ok(());
        }
        // the payer's stock as it was, given the consignments instead
        let txid = *s.txs.last().unwrap();
        let from = s.maker(txid).unwrap();
        let touched: Vec<ContractId> = s
            .w
            .contracts
            .iter()
            .copied()
            .filter(|c| {
                let l = &s.w.wallets[from].ledger;
                l.wit.iter().any(|(op, t)| t.contains(&txid) && l.ops[op].contract == *c)
            })
            .collect();
        let secret = s.pays.last().filter(|p| p.0.tx.txid() == txid).and_then(|p| p.0.secret);
        let paid = s.pays.last().filter(|p| p.0.tx.txid() == txid).map(|p| s.w.contracts[p.2]);
        let mut node = Node {
            stock: before.w.wallets[from].clone().stock,
            ledger: before.w.wallets[from].ledger.clone(),
        };
        for c in &touched {
            let secret = if paid == Some(*c) { secret } else { None };
            let outs: Vec<XOutputSeal> = (1..4)
                .map(|v| Outpoint::new(txid, Vout::from_u32(v)))
                .filter(|o| !s.at(from, *c, &[*o]).is_empty())
                .map(|o| oseal(OP, o))
                .collect();
            let t = s.w.transfer(from, *c, &outs, secret)?;
            let v = s.w.validate(t)?;
            node.take(&Item::Transfer(v), &s.w.chain)?;
        }
        let mut signed = Node {
            stock: s.w.wallets[from].clone().stock,
            ledger: s.w.wallets[from].ledger.clone(),
        };
        let secrets: Vec<_> = s.pays.iter().filter_map(|p| p.0.secret).collect();
        compare(&node, &signed, &secrets, &s.w.chain)?;
        ctx.outcome(format!("contracts-{}", touched.len()));
        if self.statuses {
            let mut chain = s.w.chain.clone();
            for st in [St::Mined(7), St::Arch, St::Tent] {
                chain.ord.insert(txid, st.ord());
                for n in [&mut node, &mut signed] {
                    n.ledger.refresh(&chain, 0);
                    n.stock.update_witnesses(&chain, 0).sut("update_witnesses")?;
                    if let Some(d) = diff(&all_lines(&n.stock)?, &n.ledger.lines()) {
                        fail!("state-differs-from-ledger", "{d}");
                    }
                }
                let (x, y) = (all_lines(&node.stock)?, all_lines(&signed.stock)?);
                if let Some(d) = diff(&x, &y) {
                    fail!("parties-differ", "after {st:?} accepted vs signed: {d}");
                }
            }
        }
        // the payee sees the same at the outputs known to both
        for w in 0..s.w.wallets.len() {
            let (a, b) = (all_lines(&s.w.wallets[w].stock)?, all_lines(&signed.stock)?);
            let key = |l: &String| l.split(' ').take(3).collect::<Vec<_>>().join(" ");
            for l in &a {
                for m in &b {
                    ensure!(key(l) != key(m) || l == m, "parties-differ", "{l} vs {m}");
                }
            }
        }
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

fn compare(a: &Node, b: &Node, secrets: &[XChain<bp::seals::SecretSeal>], chain: &Chain) -> R {
    let (x, y) = (all_lines(&a.stock)?, all_lines(&b.stock)?);
    if let Some(d) = diff(&x, &y) {
        fail!("parties-differ", "accepted vs signed: {d}");
    }
    let mut x = a.exports(secrets, chain, false)?;
    let mut y = b.exports(secrets, chain, false)?;
    x.sort();
    y.sort();
    if let Some(d) = diff(&x, &y) {
        fail!("exports-differ", "accepted vs signed: {d}");
    }
    for c in contract_ids(&a.stock)? {
        let f = |n: &Node| -> R<Vec<String>> {
            let mut v: Vec<String> = n
                .stock
                .contract_info(c)
                .map(|i| vec![format!("{i:?}")])
                .sut("contract_info")?;
            v.sort();
            Ok(v)
        };
        ensure!(f(a)? == f(b)?, "info-differs", "contract information differs");
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let all = [Root::One(OP), Root::One(TAP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    let menu = Menu { methods: vec![OP, TAP], bens: vec![Ben::Blind(TAP), Ben::Vout(OP)], parts: vec![(1, 3)], sweep: true, notes: true, ..Menu::default() };
    let small = Menu { tokens: false, all_coins: false, ..menu.clone() };
    let p = vec![None, Some(0), Some(1), Some(u64::MAX)];
    if ctx.thorough {
        explore(ctx, &P24 { menu: menu.clone(), prios: p, statuses: true }, &all, 2);
        explore(ctx, &P24 { menu: Menu { methods: vec![OP], ..small }, prios: vec![None, Some(5)], statuses: false }, &all[2..3], 3);
    } else {
        explore(ctx, &P24 { menu, prios: p, statuses: true }, &all, 1);
        explore(ctx, &P24 { menu: small, prios: vec![None, Some(5)], statuses: false }, &all[2..3], 2);
        explore(ctx, &P24 { menu: Menu { methods: vec![OP], ..Menu::default() }, prios: vec![None], statuses: false }, &all[3..5], 2);
    }
    ctx.finish(
        "model_checking",
        "all payment, sweep and publication histories up to the depth with all priorities; each transaction is taken by one copy of the payer's stock from the signed result and by another from the exported consignments, and state, exports and information are compared, also through status changes",
        &["status changes cover mined, archived and tentative again"],
    )
}
