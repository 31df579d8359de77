//! Interface queries and wallet histories against the reference ledger, under
//! all filters over the outputs of every history.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use amplify::hex::ToHex;
use amplify::Wrapper;
use bp::{Outpoint, Txid, Vout};
use rgbstd::interface::{
    AllocatedState, AssignmentsFilter, ContractError, ContractIface, FilterExclude, FilterIncludeAll, OpDirection,
};
use rgbstd::persistence::ContractStateRead;
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::explore::explore;
use crate::lab::*;

/// One visible assignment with its witness.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Item {
    op: OpId,
    ty: u16,
    no: u16,
    method: u8,
    at: Outpoint,
    val: String,
    wit: Option<Txid>,
}

/// Value without blinding data.
fn plain(ty: u16, val: &str) -> String {
    let parts: Vec<&str> = val.split('/').collect();
    if ty == OS_DOC.to_inner() {
        parts[..parts.len() - 1].join("/")
    } else {
        parts[0].to_string()
    }
}

fn items(l: &Ledger, c: ContractId) -> Vec<Item> {
    let mut v = vec![];
    for (opid, op) in &l.ops {
        if op.contract != c {
            continue;
        }
        let wits: Vec<Option<Txid>> = if op.genesis {
            vec![None]
        } else {
            l.wit.get(opid).into_iter().flatten().filter(|t| l.is_valid(**t)).map(|t| Some(*t)).collect()
        };
        for wit in wits {
            for ((ty, no), (seal, val)) in &op.outs {
                v.push(Item {
                    op: *opid,
                    ty: *ty,
                    no: *no,
                    method: seal.method,
                    at: seal.at(wit),
                    val: plain(*ty, val),
                    wit,
                });
            }
        }
    }
    v.sort();
    v
}

fn txid(w: XWitnessId) -> Txid {
    match w {
        XChain::Bitcoin(t) => t,
        _ => panic!("bitcoin only"),
    }
}

fn item<S: KnownState>(a: &OutputAssignment<S>, val: String) -> Item {
    let (method, at) = match a.seal {
        XChain::Bitcoin(s) => (s.method as u8, Outpoint::new(s.txid, s.vout)),
        _ => panic!("bitcoin only"),
    };
    Item { op: a.opout.op, ty: a.opout.ty.to_inner(), no: a.opout.no, method, at, val, wit: a.witness.map(txid) }
}

fn data(d: &DataState) -> String { AsRef::<[u8]>::as_ref(d).to_hex() }
fn attach(d: &AttachState) -> String { format!("{}/{}", d.id, d.media_type) }
fn allocated(s: &AllocatedState) -> String {
    match s {
        AllocatedState::Void => "right".into(),
        AllocatedState::Amount(a) => a.value().to_string(),
        AllocatedState::Data(d) => data(d),
        AllocatedState::Attachment(a) => attach(a),
    }
}

/// Witnesses of a wallet, used the way wallets do.
#[derive(Clone)]
struct Made(BTreeSet<Txid>);
impl AssignmentsFilter for Made {
    fn should_include(&self, _: impl Into<XOutpoint>, witness_id: Option<XWitnessId>) -> bool {
        witness_id.map(|w| self.0.contains(&txid(w))).unwrap_or(false)
    }
}

fn same(what: &str, mut got: Vec<Item>, want: Vec<Item>) -> R {
    got.sort();
    ensure!(got == want, format!("query:{what}"), "got {got:?}, expected {want:?}");
    Ok(())
}

/// All queries under one filter, given in two equal copies.
fn query<S: ContractStateRead>(
    ctx: &Ctx,
    ci: &ContractIface<S>,
    all: &[Item],
    alpha: bool,
    f: impl AssignmentsFilter + Copy,
    pass: impl Fn(&Item) -> bool,
) -> R {
    ctx.outcome("filters");
    let types: Vec<(&'static str, u16)> = if alpha {
        vec![
            ("asset", OS_ASSET.to_inner()),
            ("bonus", OS_BONUS.to_inner()),
            ("right", OS_RIGHT.to_inner()),
            ("token", OS_TOKEN.to_inner()),
            ("doc", OS_DOC.to_inner()),
        ]
    } else {
        vec![("asset", B_ASSET.to_inner()), ("right", B_RIGHT.to_inner())]
    };
    for (name, ty) in types {
        let want: Vec<Item> = all.iter().filter(|i| i.ty == ty && pass(i)).cloned().collect();
        let got: Vec<Item> = match name {
            "asset" | "bonus" => {
                ci.fungible(name, f).sut("fungible")?.map(|a| item(&a, a.state.value().to_string())).collect()
            }
            "right" => ci.rights(name, f).sut("rights")?.map(|a| item(&a, "right".into())).collect(),
            "token" => ci.data(name, f).sut("data")?.map(|a| item(&a, data(&a.state))).collect(),
            _ => ci.attachments(name, f).sut("attachments")?.map(|a| item(&a, attach(&a.state))).collect(),
        };
        same(name, got, want)?;
    }
    let got: Vec<Item> = ci.allocations(f).map(|a| item(&a, allocated(&a.state))).collect();
    same("allocations", got, all.iter().filter(|i| pass(i)).cloned().collect())?;
    for r in [
        ci.fungible("nothing", f).err(),
        ci.rights("nothing", f).err(),
        ci.data("nothing", f).err(),
        ci.attachments("nothing", f).err(),
    ] {
        ensure!(
            matches!(r, Some(ContractError::FieldNameUnknown(_))),
            "unknown-name",
            "query by an unknown name is not refused"
        );
    }
    Ok(())
}

fn fungible(ty: u16) -> bool { [OS_ASSET, OS_BONUS, B_ASSET].iter().any(|t| t.to_inner() == ty) }

type Row = (String, u16, BTreeSet<OpId>, String, BTreeSet<(u8, Outpoint)>, Option<Txid>);

fn expected(all: &[Item], ours: &[Outpoint], made: &BTreeSet<Txid>) -> Vec<Row> {
    let mut rows = vec![];
    let types: BTreeSet<u16> = all.iter().map(|i| i.ty).collect();
    let wits: BTreeSet<Option<Txid>> = all.iter().map(|i| i.wit).collect();
    for ty in types {
        for wit in &wits {
            let here: Vec<&Item> = all.iter().filter(|i| i.ty == ty && i.wit == *wit).collect();
            let (dir, part): (&str, Vec<&Item>) = match wit {
                None => ("issued", here.into_iter().filter(|i| ours.contains(&i.at)).collect()),
                Some(t) if made.contains(t) => ("sent", here.into_iter().filter(|i| !ours.contains(&i.at)).collect()),
                Some(_) => ("received", here.into_iter().filter(|i| ours.contains(&i.at)).collect()),
            };
            if part.is_empty() {
                continue;
            }
            let row = |p: &[&Item], val: String| -> Row {
                (
                    dir.to_string(),
                    ty,
                    p.iter().map(|i| i.op).collect(),
                    val,
                    p.iter().map(|i| (i.method, i.at)).collect(),
                    *wit,
                )
            };
            if fungible(ty) {
                let sum: u64 = part.iter().map(|i| i.val.parse::<u64>().unwrap()).sum();
                rows.push(row(&part, sum.to_string()));
            } else {
                for p in part {
                    rows.push(row(&[p], p.val.clone()));
                }
            }
        }
    }
    rows.sort();
    rows
}

fn history<S: ContractStateRead>(
    ctx: &Ctx,
    ci: &ContractIface<S>,
    l: &Ledger,
    all: &[Item],
    ours: &[Outpoint],
    made: &BTreeSet<Txid>,
) -> R {
    let f: Vec<XOutpoint> = ours.iter().map(|o| xo(*o)).collect();
    let ops = ci.history(f.clone(), Made(made.clone()));
    let mut got: Vec<Row> = vec![];
    for op in &ops {
        if let Some(w) = &op.witness {
            ensure!(
                l.ords.get(&txid(w.id)) == Some(&w.ord),
                "history-status",
                "witness status {:?} in history, {:?} known",
                w.ord,
                l.ords.get(&txid(w.id))
            );
        }
        got.push((
            match op.direction {
                OpDirection::Issued => "issued",
                OpDirection::Received => "received",
                OpDirection::Sent => "sent",
            }
            .to_string(),
            op.ty.to_inner(),
            op.opids.clone(),
            allocated(&op.state),
            op.to
                .iter()
                .map(|s| match s {
                    XChain::Bitcoin(s) => (s.method as u8, Outpoint::new(s.txid, s.vout)),
                    _ => panic!("bitcoin only"),
                })
                .collect(),
            op.witness.map(|w| txid(w.id)),
        ));
    }
    got.sort();
    let want = expected(all, ours, made);
    ensure!(got == want, "history", "history {got:?}, expected {want:?}");
    // parts of the history by kind of state
    let parts = ci.history_fungible(f.clone(), Made(made.clone())).len()
        + ci.history_rights(f.clone(), Made(made.clone())).len()
        + ci.history_data(f.clone(), Made(made.clone())).len()
        + ci.history_attach(f, Made(made.clone())).len();
    ensure!(parts == ops.len(), "history-parts", "{parts} entries by kind, {} in total", ops.len());
    for r in &want {
        ctx.outcome(r.0.clone());
    }
    Ok(())
}

fn inspect(ctx: &Ctx, h: &Hist) -> R {
    for (wi, w) in h.w.wallets.iter().enumerate() {
        for c in contract_ids(&w.stock)? {
            let ci = w.stock.contract_iface(c, "LabAsset").sut("contract_iface")?;
            let alpha = ci.schema.schema_id() == fx().alpha.schema_id();
            let all = items(&w.ledger, c);
            query(ctx, &ci, &all, alpha, &FilterIncludeAll, |_| true)?;
            query(ctx, &ci, &all, alpha, &None::<XOutpoint>, |_| true)?;
            let mut outs: BTreeSet<Outpoint> = all.iter().map(|i| i.at).collect();
            outs.insert(Outpoint::new(fund_txid(99), Vout::from_u32(0)));
            let outs: Vec<Outpoint> = outs.into_iter().collect();
            for o in &outs {
                let x = xo(*o);
                query(ctx, &ci, &all, alpha, x, |i| i.at == *o)?;
                query(ctx, &ci, &all, alpha, Some(x), |i| i.at == *o)?;
                query(ctx, &ci, &all, alpha, [x], |i| i.at == *o)?;
                query(ctx, &ci, &all, alpha, &FilterExclude(x), |i| i.at != *o)?;
                let got: Vec<Item> = ci.outpoint_allocations(x).map(|a| item(&a, allocated(&a.state))).collect();
                same("outpoint_allocations", got, all.iter().filter(|i| i.at == *o).cloned().collect())?;
            }
            for set in subsets(&outs, 4) {
                let pass = |i: &Item| set.contains(&i.at);
                let v: Vec<XOutpoint> = set.iter().map(|o| xo(*o)).collect();
                query(ctx, &ci, &all, alpha, &v, pass)?;
                query(ctx, &ci, &all, alpha, &v.iter().copied().collect::<HashSet<_>>(), pass)?;
                query(ctx, &ci, &all, alpha, &v.iter().copied().collect::<BTreeSet<_>>(), pass)?;
                query(ctx, &ci, &all, alpha, &v.iter().map(|o| (*o, ())).collect::<HashMap<_, _>>(), pass)?;
                query(ctx, &ci, &all, alpha, &v.iter().map(|o| (*o, 1)).collect::<BTreeMap<_, _>>(), pass)?;
                query(ctx, &ci, &all, alpha, v.as_slice(), pass)?;
                query(ctx, &ci, &all, alpha, &FilterExclude(v), |i| !set.contains(&i.at))?;
            }
            // history under all divisions of outputs and transactions
            let known: Vec<Txid> = h.txs.iter().copied().filter(|t| w.ledger.ords.contains_key(t)).collect();
            for ours in subsets(&outs[..outs.len().min(6)], 4) {
                for made in subsets(&known, 3) {
                    history(ctx, &ci, &w.ledger, &all, &ours, &made.into_iter().collect())?;
                }
            }
            // ...and the one of this wallet
            let own: Vec<Outpoint> = outs.iter().copied().filter(|o| h.owned(wi, *o)).collect();
            let made: BTreeSet<Txid> = known.iter().copied().filter(|t| h.maker(*t) == Some(wi)).collect();
            history(ctx, &ci, &w.ledger, &all, &own, &made)?;
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let menu = Menu {
        methods: vec![OP],
        bens: vec![Ben::Blind(OP), Ben::Vout(TAP)],
        sweep: true,
        bonus: true,
        each_coin: true,
        statuses: vec![St::Arch, St::Mined(5)],
        ..Menu::default()
    };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    explore(ctx, &Walk { menu: menu.clone(), inspect }, &roots, if ctx.thorough { 3 } else { 2 });
    if !ctx.thorough {
        let deep = Menu { each_coin: false, bens: vec![Ben::Vout(OP)], ..menu };
        explore(ctx, &Walk { menu: deep, inspect }, &roots, 3);
    }
    let docs = Menu { pairs: vec![], sweep: true, notes: true, statuses: vec![St::Arch, St::Tent], ..Menu::default() };
    explore(ctx, &Walk { menu: docs, inspect }, &[Root::Docs], if ctx.thorough { 4 } else { 3 });
    ctx.finish(
        "model_checking",
        "after every history up to the depth: all typed queries under all kinds of filters over all subsets of up to four outputs (of more: single ones, pairs, none, all), and histories under such divisions of the first six outputs and of the transactions between the wallet and others, compared with the reference ledger",
        &["two wallets, up to two contracts", "outputs of the counterparty count as far as they are disclosed to the stock"],
    )
}
