//! Exports of schemata and contracts, imported into an empty stock and
//! exported again.

use std::collections::BTreeSet;

use amplify::confinement::Confined;
use rgbstd::containers::{Kit, ValidKit};
use rgbstd::interface::*;
use rgbstd::persistence::Stock;
use rgbstd::*;
use strict_encoding::FieldName;

use crate::core::{Ctx, Sut, R};
use crate::explore::explore;
use crate::lab::*;

fn valid(k: Kit) -> R<ValidKit> { k.validate().map_err(|(s, _)| s).sut("validate kit") }

fn known(stock: &Stock) -> R<Vec<String>> {
    let mut v: Vec<String> = stock.schemata().sut("schemata")?.map(|i| format!("{i:?}")).collect();
    v.extend(stock.ifaces().sut("ifaces")?.map(|i| format!("{i:?}")));
    v.sort();
    Ok(v)
}

fn kits(ctx: &Ctx, (s, m, i): (u32, u32, u32)) -> R {
    let src = part_kit(s, m, i);
    let mut stock = Stock::in_memory();
    stock.import_kit(valid(src.clone())?).sut("import_kit")?;
    stock.import_kit(valid(src.clone())?).sut("import_kit")?;
    let got: BTreeSet<SchemaId> = stock.schemata().sut("schemata")?.map(|x| x.id).collect();
    let want: BTreeSet<SchemaId> = src.schemata.iter().map(|x| x.schema_id()).collect();
    ensure!(got == want, "schemata", "stock lists schemata {got:?} instead of {want:?}");
    let got: BTreeSet<IfaceId> = stock.ifaces().sut("ifaces")?.map(|x| x.id).collect();
    let want: BTreeSet<IfaceId> = src.ifaces.iter().map(|x| x.iface_id()).collect();
    ensure!(got == want, "ifaces", "stock lists interfaces {got:?} instead of {want:?}");
    for schema in &src.schemata {
        let id = schema.schema_id();
        let out = stock.export_schema(id).sut("export_schema")?.into_kit();
        ensure!(out.schemata.iter().eq([schema]), "kit-schema", "other schemata exported");
        let impls: BTreeSet<ImplId> = src.iimpls.iter().filter(|x| x.schema_id == id).map(|x| x.impl_id()).collect();
        let got: BTreeSet<ImplId> = out.iimpls.iter().map(|x| x.impl_id()).collect();
        ensure!(got == impls, "kit-impls", "exported implementations {got:?} instead of {impls:?}");
        let ifaces: BTreeSet<IfaceId> = src.iimpls.iter().filter(|x| x.schema_id == id).map(|x| x.iface_id).collect();
        let got: BTreeSet<IfaceId> = out.ifaces.iter().map(|x| x.iface_id()).collect();
        ensure!(got == ifaces, "kit-ifaces", "exported interfaces {got:?} instead of {ifaces:?}");
        let libs: BTreeSet<_> = libs_of(schema, &src.scripts);
        let got: BTreeSet<_> = out.scripts.iter().map(|x| x.id()).collect();
        ensure!(got == libs, "kit-scripts", "exported scripts {got:?} instead of {libs:?}");
        for t in schema.types().chain(out.ifaces.iter().flat_map(Iface::types)) {
            ensure!(out.types.get(t) == src.types.get(t), "kit-types", "type {t} is exported differently");
        }
        let mut other = Stock::in_memory();
        other.import_kit(valid(out.clone())?).sut("import exported kit")?;
        let again = other.export_schema(id).sut("export_schema")?.into_kit();
        ensure!(bytes(&again) == bytes(&out), "kit-again", "second export differs from the first");
        ctx.outcome(format!("kit-{}", out.iimpls.len()));
        // the two orders of import of both kits
        let mut x = Stock::in_memory();
        let mut y = Stock::in_memory();
        for k in [&out, &src] {
            x.import_kit(valid(k.clone())?).sut("import_kit")?;
        }
        for k in [&src, &out] {
            y.import_kit(valid(k.clone())?).sut("import_kit")?;
        }
        ensure!(known(&x)? == known(&y)?, "kit-order", "import order matters");
        ensure!(known(&x)? == known(&stock)?, "kit-merge", "importing a part changes what is known");
    }
    Ok(())
}

fn inspect(ctx: &Ctx, h: &Hist) -> R {
    for w in &h.w.wallets {
        for c in contract_ids(&w.stock)? {
            let e = export(&w.stock, c)?;
            let v = e.clone().validate(&h.w.chain, true).map_err(|(s, _)| s).sut("validate exported contract")?;
            let schema = e.schema.schema_id();
            let mut ledger = Ledger::default();
            ledger.consignment(&v, &h.w.chain);
            for mut stock in [Stock::in_memory(), fresh_stock()?] {
                stock.import_contract(v.clone(), &h.w.chain).sut("import exported contract")?;
                if let Some(d) = diff(&all_lines(&stock)?, &ledger.lines()) {
                    fail!("imported-state", "{d}");
                }
                let again = export(&stock, c)?;
                ensure!(bytes(&again) == bytes(&e), "again-differs", "second export differs from the first");
                let (a, b) = (w.stock.export_schema(schema).sut("export_schema")?, stock.export_schema(schema).sut("export_schema")?);
                ensure!(bytes(&a.into_kit()) == bytes(&b.into_kit()), "schema-differs", "schema of the imported contract differs");
                let (a, b) = (w.stock.contract_info(c).sut("contract_info")?, stock.contract_info(c).sut("contract_info")?);
                ensure!(format!("{a:?}") == format!("{b:?}"), "info-differs", "contract information differs");
            }
            // the history of all outputs, passed through a stock which knew nothing
            let outs: BTreeSet<_> = w.ledger.visible().into_iter().filter(|x| x.0 == c).map(|x| x.5).collect();
            let mut sets: Vec<Vec<_>> = outs.iter().map(|o| vec![*o]).collect();
            if outs.len() > 1 {
                sets.push(outs.into_iter().collect());
            }
            for set in sets {
                let seals: Vec<_> = set.iter().map(|o| oseal(OP, *o)).collect();
                let t = w.stock.transfer(c, &seals, None).sut("transfer")?;
                let v = h.w.validate(t.clone())?;
                let mut stock = Stock::in_memory();
                stock.accept_transfer(v, &h.w.chain).sut("accept_transfer by an empty stock")?;
                let again = stock.transfer(c, &seals, None).sut("transfer")?;
                ensure!(bytes(&again) == bytes(&t), "again-differs", "second export of {set:?} differs from the first");
                let (a, b) = (w.stock.export_schema(schema).sut("export_schema")?, stock.export_schema(schema).sut("export_schema")?);
                ensure!(bytes(&a.into_kit()) == bytes(&b.into_kit()), "schema-differs", "schema of the received contract differs");
                ctx.outcome("transfer");
            }
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let mut configs = vec![];
    for s in 0..4u32 {
        for m in 0..8u32 {
            for i in 0..4u32 {
                // implementations need their schema and interface
                let schema_ok = (m & 5 == 0 || s & 1 != 0) && (m & 2 == 0 || s & 2 != 0);
                let iface_ok = (m & 3 == 0 || i & 1 != 0) && (m & 4 == 0 || i & 2 != 0);
                if schema_ok && iface_ok {
                    configs.push((s, m, i));
                }
            }
        }
    }
    ctx.run(&configs, |(s, m, i)| format!("kit:s{s}m{m}i{i}"), |c, k| {
        ctx.state(k);
        ctx.step();
        kits(ctx, *c)
    });
    let menu = Menu {
        methods: vec![OP],
        bens: vec![Ben::Blind(OP), Ben::Vout(TAP)],
        sweep: true,
        share: true,
        statuses: vec![St::Arch, St::Mined(5)],
        notes: true,
        all_coins: false,
        tokens: false,
        ..Menu::default()
    };
    let all = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin];
    if ctx.thorough {
        explore(ctx, &Walk { menu: menu.clone(), inspect }, &all, 2);
        let menu = Menu { bens: vec![Ben::Vout(OP)], notes: false, share: false, ..menu };
        explore(ctx, &Walk { menu, inspect }, &[Root::Kinds, Root::Twin, Root::Shared], 3);
    } else {
        explore(ctx, &Walk { menu: menu.clone(), inspect }, &all, 1);
        let menu = Menu { bens: vec![Ben::Vout(OP)], share: false, ..menu };
        explore(ctx, &Walk { menu, inspect }, &[Root::Kinds, Root::Twin], 2);
    }
    ctx.finish(
        "model_checking",
        "all combinations of two schemata, two interfaces and three implementations as kits; all payment, sweep, publication and status histories up to the depth; every export is imported into an empty stock and into one knowing the schemata, compared with the reference ledger and exported again",
        &["the implementation keeps no public state index, so exported contracts carry the genesis only"],
    )
}
