//! Saving and loading: stocks of all histories are kept on disk, loaded back
//! after every step and used further as loaded.

use nonasync::persistence::CloneNoPersistence;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::Stock;

use crate::core::{Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    /// Saved by every operation.
    Auto,
    /// Saved on demand.
    Manual,
    /// An in-memory stock which becomes persistent after the operation.
    Late,
}

struct P06 {
    menu: Menu,
    mode: Mode,
}

fn load(dir: &Scratch, autosave: bool) -> R<Stock> {
    let store = FsBinStore::new(dir.path()).sut("FsBinStore::new")?;
    Stock::load(store, autosave).sut("Stock::load")
}

impl Space for P06 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        let dirs: Vec<Scratch> = (0..s.w.wallets.len()).map(|i| Scratch::new(&i.to_string())).collect();
        let auto = self.mode == Mode::Auto;
        if self.mode != Mode::Late {
            for (w, d) in s.w.wallets.iter_mut().zip(&dirs) {
                let store = FsBinStore::new(d.path()).sut("FsBinStore::new")?;
                w.stock.make_persistent(store, auto).sut("make_persistent")?;
                if self.mode == Mode::Manual {
                    w.stock.store().sut("Stock::store")?;
                }
                // the operation is done by a stock loaded from the disk
                w.stock = load(d, auto)?;
            }
            s.check_state()?;
        }
        s.apply(a)?;
        let q = asked(s);
        for (i, (w, d)) in s.w.wallets.iter_mut().zip(&dirs).enumerate() {
            match self.mode {
                Mode::Auto => {}
                Mode::Manual => w.stock.store().sut("Stock::store")?,
                Mode::Late => {
                    let store = FsBinStore::new(d.path()).sut("FsBinStore::new")?;
                    w.stock.make_persistent(store, true).sut("make_persistent")?;
                }
            }
            let loaded = load(d, auto)?;
            if let Some(x) = same(&loaded, &w.stock, &q) {
                crate::fail!("loaded-stock-differs", "wallet {i}: the loaded stock {x}");
            }
            let (x, y) = (answers(&loaded, &q), answers(&w.stock, &q));
            crate::ensure!(x == y, "loaded-stock-answers-differ", "wallet {i}: the loaded stock answers differently");
            // what is kept further is what was loaded
            w.stock = loaded.clone_no_persistence();
            ctx.eval();
        }
        s.check_state()?;
        ctx.outcome(format!("{:?}", self.mode));
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

pub fn check(ctx: &Ctx) -> i32 {
    let menu = Menu {
        statuses: vec![St::Arch, St::Mined(5)],
        sweep: true,
        share: true,
        notes: true,
        each_coin: false,
        ..Menu::default()
    };
    let small = Menu { bens: vec![Ben::Blind(OP)], share: false, notes: false, tokens: false, ..menu.clone() };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin];
    // attachments can't be delivered
    let docs = Menu { pairs: vec![], share: false, ..menu.clone() };
    for mode in [Mode::Auto, Mode::Manual, Mode::Late] {
        explore(ctx, &P06 { menu: docs.clone(), mode }, &[Root::Docs], if ctx.thorough { 3 } else { 2 });
        if ctx.thorough {
            explore(ctx, &P06 { menu: menu.clone(), mode }, &roots, 2);
            explore(ctx, &P06 { menu: small.clone(), mode }, &roots[..2], 3);
        } else {
            explore(ctx, &P06 { menu: menu.clone(), mode }, &roots, 1);
            explore(ctx, &P06 { menu: small.clone(), mode }, &roots[..2], 2);
        }
    }
    ctx.finish(
        "model_checking",
        "all histories up to the bound; before each step every stock is loaded from disk, after it saved (by autosave, explicitly, or by becoming persistent) and loaded again; the loaded stock answers all queries and exports as the one in memory, follows the reference ledger and is used further",
        &["files are written to a scratch directory"],
    )
}
