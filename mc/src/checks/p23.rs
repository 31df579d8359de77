//! One transaction witnessing several contracts by both closing methods: the
//! parts arrive in all orders, from the payer and from the other parties.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use bp::dbc::Method;
use bp::{Outpoint, Vout};
use commit_verify::mpc;
use rgbstd::containers::*;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;

use crate::core::{Ctx, Sut, R};
use crate::lab::*;

#[derive(Clone)]
struct Case {
    /// Closing methods used by each contract: 1 opret, 2 tapret, 3 both.
    methods: Vec<u8>,
    /// Operations of one contract per closing method.
    split: bool,
    /// The party starting with the full transaction data or its id only.
    by_id: bool,
    max: usize,
}

impl Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m: String = self.methods.iter().map(|m| ["-", "o", "t", "b"][*m as usize]).collect();
        write!(f, "{m}{}{}", if self.split { ":split" } else { "" }, if self.by_id { ":id" } else { "" })
    }
}

/// The part of a fascia which concerns the given contracts and methods.
fn part(f: &Fascia, keep: &BTreeMap<ContractId, Vec<Method>>, by_id: bool) -> R<Fascia> {
    let ids = |m: Method| -> Vec<mpc::ProtocolId> {
        keep.iter().filter(|x| x.1.contains(&m)).map(|x| mpc::ProtocolId::from(*x.0)).collect()
    };
    let mut anchor = f.anchor.clone();
    let (t, o) = (ids(TAP), ids(OP));
    anchor = match anchor {
        AnchorSet::Double { mut tapret, mut opret } => {
            if !t.is_empty() {
                tapret.mpc_proof.conceal_except(&t).sut("conceal")?;
            }
            if !o.is_empty() {
                opret.mpc_proof.conceal_except(&o).sut("conceal")?;
            }
            match (t.is_empty(), o.is_empty()) {
                (false, false) => AnchorSet::Double { tapret, opret },
                (false, true) => AnchorSet::Tapret(tapret),
                _ => AnchorSet::Opret(opret),
            }
        }
        AnchorSet::Tapret(mut tapret) => {
            tapret.mpc_proof.conceal_except(&t).sut("conceal")?;
            AnchorSet::Tapret(tapret)
        }
        AnchorSet::Opret(mut opret) => {
            opret.mpc_proof.conceal_except(&o).sut("conceal")?;
            AnchorSet::Opret(opret)
        }
    };
    let mut bundles = BTreeMap::new();
    for (c, d) in f.bundles.iter() {
        let v: Vec<TransitionBundle> = d
            .iter()
            .filter(|b| keep.get(c).map(|m| m.contains(&b.close_method)).unwrap_or(false))
            .cloned()
            .collect();
        if !v.is_empty() {
            bundles.insert(*c, BundleDichotomy::from_iter(v));
        }
    }
    let witness = if by_id { XChain::Bitcoin(PubWitness::Txid(f.witness.as_reduced_unsafe().txid())) } else { f.witness.clone() };
    Ok(Fascia { witness, anchor, bundles: amplify::confinement::NonEmptyOrdMap::try_from(bundles).sut("bundles")? })
}

fn used(m: u8) -> Vec<Method> {
    [OP, TAP].into_iter().filter(|x| m & (1 << (*x as u8)) != 0).collect()
}

fn vout(m: Method) -> u32 { if m == OP { 1 } else { 3 } }

fn run(ctx: &Ctx, c: &Case) -> R {
    let mut w = World::new(1)?;
    let mut coins: Vec<Vec<(Method, Outpoint)>> = vec![];
    for (i, m) in c.methods.iter().enumerate() {
        let sch = if i == 1 { Sch::Beta } else { Sch::Alpha };
        let mut alloc = vec![];
        let mut v = vec![];
        for m in used(*m) {
            let o = w.fund(0);
            alloc.push((o, m, Val::Asset(10 + i as u64)));
            v.push((m, o));
        }
        w.issue(0, sch, &[], &alloc)?;
        coins.push(v);
    }
    let start: Vec<ValidContract> = w
        .contracts
        .iter()
        .map(|id| {
            export(&w.wallets[0].stock, *id)?.validate(&w.chain, true).map_err(|(s, _)| s).sut("validate contract")
        })
        .collect::<R<_>>()?;
    let mut h = Hist::with(w);
    let mut ops = vec![];
    for (i, v) in coins.iter().enumerate() {
        let cid = h.w.contracts[i];
        for (m, o) in v {
            ops.extend(h.move_ops(0, cid, *o, vout(*m))?);
        }
    }
    let (tx, fascia) = h.w.broadcast(0, &ops, 0, WitnessOrd::Tentative)?;
    h.check_state()?;
    let txid = tx.txid();
    let out = |m: Method| Outpoint::new(txid, Vout::from_u32(vout(m)));
    let mut parcels = vec![];
    let whole: BTreeMap<ContractId, Vec<Method>> =
        h.w.contracts.iter().zip(&c.methods).map(|(id, m)| (*id, used(*m))).collect();
    for (i, m) in c.methods.iter().enumerate() {
        let cid = h.w.contracts[i];
        let mut sets = vec![used(*m)];
        if *m == 3 && c.split {
            sets = vec![vec![OP], vec![TAP]];
        }
        for set in sets {
            let tag: String = set.iter().map(|m| mtag(*m)).collect();
            let f = part(&fascia, &BTreeMap::from([(cid, set.clone())]), c.by_id)?;
            parcels.push(Parcel { name: format!("fascia{i}{tag}"), item: Item::Fascia(f), needs: vec![], tag: 0 });
            let outs: Vec<_> = set.iter().map(|m| oseal(*m, out(*m))).collect();
            let t = h.w.transfer(0, cid, &outs, None)?;
            check_parts(&t, cid, &set)?;
            let v = h.w.validate(t)?;
            parcels.push(Parcel { name: format!("transfer{i}{tag}"), item: Item::Transfer(v), needs: vec![], tag: 1 });
        }
    }
    if parcels.len() < 6 {
        let f = part(&fascia, &whole, c.by_id)?;
        parcels.push(Parcel { name: "fascia-all".into(), item: Item::Fascia(f), needs: vec![], tag: 0 });
    }
    let mut n = Node::fresh()?;
    for v in start {
        n.take(&Item::Contract(v), &h.w.chain)?;
    }
    // each party may know only some of the contracts; an unknown one arrives by transfer
    deliveries(ctx, &n, &parcels, &h.w.chain, c.max, &[], true)?;
    let only: Vec<Parcel> = parcels.into_iter().filter(|p| matches!(p.item, Item::Transfer(_))).collect();
    deliveries(ctx, &Node::fresh()?, &only, &h.w.chain, c.max, &[], true)
}

/// A consignment of a contract carries proofs of the contract only.
fn check_parts(t: &Transfer, cid: ContractId, set: &[Method]) -> R {
    let mut got = BTreeSet::new();
    for wb in t.bundled_witnesses() {
        for (_, b) in wb.anchored_bundles() {
            got.insert(b.close_method as u8);
            for tr in b.known_transitions.values() {
                ensure!(tr.contract_id == cid, "foreign-operation", "consignment has an operation of another contract");
            }
        }
    }
    let want: BTreeSet<u8> = set.iter().map(|m| *m as u8).collect();
    ensure!(got == want, "parts", "consignment has bundles {got:?} instead of {want:?}");
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let mut cases = vec![];
    let mut add = |methods: &[u8], max: usize| {
        for split in [false, true] {
            if split && !methods.contains(&3) {
                continue;
            }
            for by_id in [false, true] {
                cases.push(Case { methods: methods.to_vec(), split, by_id, max });
            }
        }
    };
    for a in 1..4u8 {
        add(&[a], 12);
        for b in 1..4u8 {
            let n = 2 * ([a, b].iter().filter(|x| **x == 3).count() + 2);
            add(&[a, b], if ctx.thorough { 16 } else if n > 6 { 2 } else { 3 });
            for c in 1..4u8 {
                if ctx.thorough || (a <= b && b <= c) {
                    add(&[a, b, c], if ctx.thorough { 3 } else { 2 });
                }
            }
        }
    }
    ctx.run(&cases, |c| c.to_string(), |c, _| run(ctx, c));
    ctx.finish(
        "model_checking",
        "all assignments of closing methods to one to three contracts (quick: for three contracts up to their order) witnessed by one transaction; the parts (signed results and transfers, per contract and method) are delivered to another stock in all sequences of up to 12 for one contract, two or three (thorough: 16) for two and two (thorough: three) for three; exports after each delivery validate and depend only on what is known",
        &["the operations spend genesis outputs", "signed results of a part reveal only the commitments of this part"],
    )
}
