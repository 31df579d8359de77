//! Contract state of a stock against the reference ledger, over all histories
//! of payments up to a depth.

use crate::core::{Ctx, R};
use crate::explore::{explore, Space};
use crate::lab::*;

struct P02 {
    menu: Menu,
}

impl Space for P02 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> {
        let h = Hist::new(root, 2)?;
        h.check_state()?;
        Ok(h)
    }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        s.apply(a)?;
        s.check_state()?;
        ctx.outcome(a.to_string().split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string());
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

pub fn check(ctx: &Ctx) -> i32 {
    let m = P02 {
        menu: Menu {
            methods: vec![OP, TAP],
            bens: vec![Ben::Blind(OP), Ben::Vout(TAP)],
            hold: true,
            sweep: true,
            share: true,
            fan: true,
            bonus: true,
            each_coin: ctx.thorough,
            ..Menu::default()
        },
    };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    explore(ctx, &m, &roots, 2);
    if ctx.thorough {
        let deep = P02 { menu: Menu { each_coin: false, methods: vec![OP], ..m.menu.clone() } };
        explore(ctx, &deep, &roots, 3);
    }
    let docs = P02 { menu: Menu { pairs: vec![], sweep: true, notes: true, statuses: vec![St::Arch, St::Tent, St::Mined(5)], ..Menu::default() } };
    explore(ctx, &docs, &[Root::Docs], if ctx.thorough { 4 } else { 3 });
    ctx.finish(
        "model_checking",
        "all sequences of issue/pay/hold/deliver/sweep/share actions up to the depth, each step compared with a reference ledger",
        &["two wallets, up to two contracts, amounts from a fixed alphabet", "witness transactions are valid"],
    )
}
