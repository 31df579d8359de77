//! Alterations of consignments: every element of consignments made in bounded
//! histories is forged, dropped, repeated, moved or detached, with the traces
//! of the alteration covered up to different depths, against all answers of
//! the chain.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::seals::txout::{BlindSeal, TxPtr};
use bp::seals::SecretSeal;
use bp::{LockTime, Outpoint, Txid, Vout};
use commit_verify::mpc;
use rgbstd::containers::*;
use rgbstd::persistence::Stock;
use rgbstd::validation::{DbcProof, ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, XWitnessTx};
use rgbstd::*;
use strict_encoding::StrictDeserialize;
use strict_types::TypeSystem;

use crate::core::{guard, silence, Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// A committed set of operations with its proofs.
#[derive(Clone)]
struct Leaf {
    mpc: mpc::MerkleProof,
    dbc: DbcProof,
    bundle: TransitionBundle,
}

#[derive(Clone)]
struct Node {
    wit: XPubWitness,
    leaves: Vec<Leaf>,
}

fn open(t: &Transfer) -> Vec<Node> {
    t.bundles
        .iter()
        .map(|b| Node {
            wit: b.pub_witness.clone(),
            leaves: b
                .anchored_bundles()
                .map(|(a, bundle)| Leaf { mpc: a.mpc_proof, dbc: a.dbc_proof, bundle: bundle.clone() })
                .collect(),
        })
        .collect()
}

/// None if the parts can't be put together at all.
fn close(t: &Transfer, nodes: &[Node]) -> Option<Transfer> {
    let mut set = BTreeSet::new();
    for n in nodes {
        let mut it = n.leaves.iter();
        let l = it.next()?;
        let client = |l: &Leaf| -> Option<ClientBundle> {
            use bp::dbc::Proof;
            (l.dbc.method() == l.bundle.close_method)
                .then(|| ClientBundle::new(l.mpc.clone(), l.dbc.clone(), l.bundle.clone()))
        };
        let mut w = WitnessBundle::with(n.wit.clone(), client(l)?);
        for l in it {
            w = w.into_double(client(l)?).ok()?;
        }
        if !set.insert(w) {
            return None;
        }
    }
    let mut t = t.clone();
    t.bundles = Confined::try_from(set).ok()?;
    Some(t)
}

fn wid(n: &Node) -> Txid {
    match n.wit.map_ref(|w| w.txid()) {
        XChain::Bitcoin(t) => t,
        _ => panic!("not bitcoin"),
    }
}

trait Forge: Sized {
    fn forged(&self) -> Vec<(&'static str, Self)>;
}
impl Forge for VoidState {
    fn forged(&self) -> Vec<(&'static str, Self)> { vec![] }
}
impl Forge for RevealedValue {
    fn forged(&self) -> Vec<(&'static str, Self)> {
        let FungibleState::Bits64(v) = self.value else { panic!("value") };
        let mut list = vec![];
        for (n, v) in [("more", v.wrapping_add(1)), ("less", v.wrapping_sub(1)), ("max", u64::MAX)] {
            let mut x = *self;
            x.value = FungibleState::Bits64(v);
            list.push((n, x));
        }
        let mut x = *self;
        x.blinding = blinding(4242);
        list.push(("factor", x));
        let mut x = *self;
        x.tag = AssetTag::from([9; 32]);
        list.push(("tag", x));
        list
    }
}
impl Forge for RevealedData {
    fn forged(&self) -> Vec<(&'static str, Self)> {
        let mut v: Vec<u8> = self.value.as_slice().to_vec();
        let mut list = vec![];
        if !v.is_empty() {
            v[0] ^= 1;
            list.push(("data", RevealedData::with_salt(DataState::from(Confined::try_from(v.clone()).expect("size")), self.salt)));
            v.pop();
            list.push(("short", RevealedData::with_salt(DataState::from(Confined::try_from(v).expect("size")), self.salt)));
        }
        list.push(("salt", RevealedData::with_salt(self.value.clone(), self.salt.wrapping_add(1))));
        list
    }
}
impl Forge for RevealedAttach {
    fn forged(&self) -> Vec<(&'static str, Self)> {
        let mut x = self.clone();
        x.salt = x.salt.wrapping_add(1);
        vec![("salt", x)]
    }
}

trait Other: Sized {
    fn other(&self) -> Vec<(&'static str, Self)>;
}
impl Other for Txid {
    fn other(&self) -> Vec<(&'static str, Self)> { vec![("tx", fund_txid(77))] }
}
impl Other for TxPtr {
    fn other(&self) -> Vec<(&'static str, Self)> {
        match self {
            TxPtr::WitnessTx => vec![("tx", TxPtr::Txid(fund_txid(77)))],
            TxPtr::Txid(_) => vec![("tx", TxPtr::Txid(fund_txid(77))), ("own", TxPtr::WitnessTx)],
        }
    }
}

fn seals<Id: Other + bp::seals::txout::SealTxid + Copy>(s: &XChain<BlindSeal<Id>>) -> Vec<(&'static str, XChain<BlindSeal<Id>>)> {
    let XChain::Bitcoin(s) = s else { panic!("not bitcoin") };
    let mut v = vec![];
    let mut x = *s;
    x.vout = Vout::from_u32(s.vout.into_u32() ^ 2);
    v.push(("vout", x));
    let mut x = *s;
    x.blinding ^= 1;
    v.push(("blinding", x));
    let mut x = *s;
    x.method = if s.method == OP { TAP } else { OP };
    v.push(("method", x));
    for (n, id) in s.txid.other() {
        let mut x = *s;
        x.txid = id;
        v.push((n, x));
    }
    let mut v: Vec<_> = v.into_iter().map(|(n, s)| (n, XChain::Bitcoin(s))).collect();
    v.push(("layer", XChain::Liquid(*s)));
    v
}

fn secrets_of(s: &XChain<SecretSeal>) -> Vec<(&'static str, XChain<SecretSeal>)> {
    let _ = s;
    vec![("secret", bseal(OP, Outpoint::new(fund_txid(78), Vout::from_u32(0)), 1).map(|s| commit_verify::Conceal::conceal(&s)))]
}

fn assigns<S: ExposedState + Forge, Id: Other + bp::seals::txout::SealTxid + Copy>(
    list: &[Assign<S, BlindSeal<Id>>],
) -> Vec<(String, Vec<Assign<S, BlindSeal<Id>>>)>
where
    BlindSeal<Id>: ExposedSeal,
{
    let mut out = vec![];
    for (i, a) in list.iter().enumerate() {
        let mut x = list.to_vec();
        x.remove(i);
        out.push((format!("drop{i}"), x));
        let mut x = list.to_vec();
        x.push(a.clone());
        out.push((format!("twice{i}"), x));
        let mut alts: Vec<(&'static str, Assign<S, BlindSeal<Id>>)> = vec![];
        match a.clone() {
            Assign::Confidential { seal, state, lock } => {
                for (n, seal) in secrets_of(&seal) {
                    alts.push((n, Assign::Confidential { seal, state: state.clone(), lock }));
                }
            }
            Assign::Revealed { seal, state, lock } => {
                for (n, seal) in seals(&seal) {
                    alts.push((n, Assign::Revealed { seal, state: state.clone(), lock }));
                }
                for (n, state) in state.forged() {
                    alts.push((n, Assign::Revealed { seal, state, lock }));
                }
            }
            Assign::ConfidentialSeal { seal, state, lock } => {
                for (n, seal) in secrets_of(&seal) {
                    alts.push((n, Assign::ConfidentialSeal { seal, state: state.clone(), lock }));
                }
                for (n, state) in state.forged() {
                    alts.push((n, Assign::ConfidentialSeal { seal, state, lock }));
                }
            }
            Assign::ConfidentialState { seal, state, lock } => {
                for (n, seal) in seals(&seal) {
                    alts.push((n, Assign::ConfidentialState { seal, state: state.clone(), lock }));
                }
            }
        }
        for (n, alt) in alts {
            let mut x = list.to_vec();
            x[i] = alt;
            out.push((format!("{n}{i}"), x));
        }
    }
    out
}

fn owned<Id: Other + bp::seals::txout::SealTxid + Copy>(
    all: &Assignments<BlindSeal<Id>>,
) -> Vec<(String, Assignments<BlindSeal<Id>>)>
where
    BlindSeal<Id>: ExposedSeal,
{
    let mut out = vec![];
    for (ty, list) in all.iter() {
        macro_rules! each {
            ($v:expr, $var:path) => {
                for (n, list) in assigns($v) {
                    let mut m = all.clone();
                    if list.is_empty() {
                        m.remove(ty).expect("confined").expect("present");
                    } else {
                        *m.get_mut(ty).expect("present") = $var(Confined::try_from(list).expect("size"));
                    }
                    out.push((format!("{ty}.{n}"), m));
                }
            };
        }
        match list {
            TypedAssigns::Declarative(v) => each!(v, TypedAssigns::Declarative),
            TypedAssigns::Fungible(v) => each!(v, TypedAssigns::Fungible),
            TypedAssigns::Structured(v) => each!(v, TypedAssigns::Structured),
            TypedAssigns::Attachment(v) => each!(v, TypedAssigns::Attachment),
        }
        // the same state under another type
        for other in all.keys().filter(|k| *k != ty) {
            let mut m = all.clone();
            let l = m.remove(ty).expect("confined").expect("present");
            m.insert(*other, l).expect("confined");
            out.push((format!("{ty}-as-{other}"), m));
        }
    }
    out
}

fn notes(g: &GlobalState) -> Vec<(String, GlobalState)> {
    let note = |n: u64| DataState::from(Confined::try_from(bytes(&Amount::from(n))).expect("short"));
    let mut out = vec![];
    let mut x = g.clone();
    if x.add_state(GS_NOTE, note(999)).is_ok() {
        out.push(("note".into(), x));
    }
    for ty in g.keys() {
        let mut x = g.clone();
        x.remove(ty).expect("confined");
        out.push((format!("no{ty}"), x));
    }
    out
}

/// Forged versions of an operation and whether no holder could make them: the
/// rules of the contract are broken by themselves.
fn transitions(t: &Transition, schema: &Schema, opouts: &BTreeSet<Opout>) -> Vec<(String, Transition, bool)> {
    let script = schema.transitions.get(&t.transition_type).and_then(|s| s.validator).is_some();
    let asset = if schema.owned_types.contains_key(&OS_ASSET) { OS_ASSET } else { B_ASSET };
    let mut v = vec![];
    let mut x = t.clone();
    x.nonce ^= 1;
    v.push(("nonce".to_string(), x, false));
    let mut x = t.clone();
    x.contract_id = ContractId::copy_from_slice([7; 32]).expect("length");
    v.push(("contract".to_string(), x, true));
    for ty in schema.transitions.keys().copied().chain([TransitionType::BLANK, TransitionType::with(999)]) {
        if ty != t.transition_type {
            let mut x = t.clone();
            x.transition_type = ty;
            v.push((format!("type{ty}"), x, ty == TransitionType::with(999)));
        }
    }
    let mut x = t.clone();
    x.metadata.add_value(MS_MEMO, MetaValue::from(Confined::try_from(bytes(&Amount::from(5u64))).expect("short"))).expect("room");
    v.push(("memo".to_string(), x, t.transition_type != TS_ANNOTATE));
    for (n, g) in notes(&t.globals) {
        let mut x = t.clone();
        let bad = n == "note" && !schema.global_types.contains_key(&GS_NOTE);
        x.globals = g;
        v.push((n, x, bad));
    }
    let ins: BTreeSet<Opout> = (&t.inputs).into_iter().map(|i| i.prev_out).collect();
    let inputs = |s: &BTreeSet<Opout>| Inputs::from_inner(Confined::from_iter_checked(s.iter().map(|o| Input::with(*o))));
    for o in &ins {
        let mut s = ins.clone();
        s.remove(o);
        let mut x = t.clone();
        x.inputs = inputs(&s);
        v.push((format!("unspend-{}.{}", o.ty, o.no), x, s.is_empty() || script && o.ty == asset));
        let mut s = ins.clone();
        s.remove(o);
        let mut p = *o;
        p.no += 100;
        s.insert(p);
        let mut x = t.clone();
        x.inputs = inputs(&s);
        v.push((format!("missing-{}.{}", o.ty, o.no), x, true));
    }
    for o in opouts.difference(&ins) {
        let mut s = ins.clone();
        s.insert(*o);
        let mut x = t.clone();
        x.inputs = inputs(&s);
        v.push((format!("spend-{}.{}.{}", &o.op.to_string()[..6], o.ty, o.no), x, script && o.ty == asset));
    }
    for (n, a) in owned(&t.assignments) {
        let mut x = t.clone();
        let bad = script
            && n.starts_with(&format!("{asset}"))
            && ["more", "less", "max", "factor", "tag", "drop", "twice"].iter().any(|k| n.contains(k));
        x.assignments = a;
        v.push((n, x, bad));
    }
    v
}

fn geneses(g: &Genesis) -> Vec<(String, Genesis)> {
    let mut v = vec![];
    let mut x = g.clone();
    x.timestamp += 1;
    v.push(("timestamp".to_string(), x));
    let mut x = g.clone();
    x.schema_id = SchemaId::from_inner([3; 32].into());
    v.push(("schema".to_string(), x));
    let mut x = g.clone();
    x.issuer = "other".parse().expect("identity");
    v.push(("issuer".to_string(), x));
    let mut x = g.clone();
    x.testnet = !x.testnet;
    v.push(("testnet".to_string(), x));
    for ty in g.asset_tags.keys() {
        let mut x = g.clone();
        x.asset_tags.remove(ty).expect("confined");
        v.push((format!("notag{ty}"), x));
        let mut x = g.clone();
        *x.asset_tags.get_mut(ty).expect("present") = AssetTag::from([9; 32]);
        v.push((format!("tag{ty}"), x));
    }
    for (n, gs) in notes(&g.globals) {
        let mut x = g.clone();
        x.globals = gs;
        v.push((n, x));
    }
    for (n, a) in owned(&g.assignments) {
        let mut x = g.clone();
        x.assignments = a;
        v.push((n, x));
    }
    v
}

fn schemata(s: &Schema) -> Vec<(String, Schema)> {
    let mut v = vec![];
    macro_rules! drops {
        ($($f:ident),*) => {$(
            for k in s.$f.keys() {
                let mut x = s.clone();
                x.$f.remove(k).expect("confined");
                v.push((format!("{}-{k}", stringify!($f)), x));
            }
        )*};
    }
    drops!(meta_types, global_types, owned_types, transitions);
    for k in s.transitions.keys() {
        let mut x = s.clone();
        let t = x.transitions.get_mut(k).expect("present");
        if t.validator.take().is_some() {
            v.push((format!("unchecked-{k}"), x));
        }
    }
    let mut x = s.clone();
    x.timestamp += 1;
    v.push(("timestamp".into(), x));
    for (n, x) in [("alpha", &fx().alpha), ("beta", &fx().beta)] {
        if x.schema_id() != s.schema_id() {
            v.push((n.to_string(), x.clone()));
        }
    }
    v
}

/// Chain as a source of answers which can be overridden.
struct Answers<'a> {
    chain: &'a Chain,
    ord: Option<WitnessOrd>,
    each: BTreeMap<Txid, Answer>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Answer {
    Honest,
    NoTx,
    NoOrd,
    /// Another transaction than asked for.
    OtherTx,
    /// Transaction spending the same but committing to something else.
    Conflict,
    Is(WitnessOrd),
}

impl ResolveWitness for Answers<'_> {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        let XChain::Bitcoin(txid) = id else { return Err(WitnessResolverError::Unknown(id)) };
        match self.each.get(&txid) {
            Some(Answer::NoTx) => Err(WitnessResolverError::Unknown(id)),
            Some(Answer::OtherTx) => {
                let tx = self.chain.txs.values().find(|t| t.txid() != txid).expect("several transactions");
                Ok(XChain::Bitcoin(tx.clone()))
            }
            Some(Answer::Conflict) => {
                let mut tx = self.chain.txs[&txid].clone();
                tx.lock_time = LockTime::from_consensus_u32(12345);
                Ok(XChain::Bitcoin(tx))
            }
            _ => self.chain.resolve_pub_witness(id),
        }
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        let XChain::Bitcoin(txid) = id else { return Err(WitnessResolverError::Unknown(id)) };
        match self.each.get(&txid) {
            Some(Answer::NoOrd) => Err(WitnessResolverError::Unknown(id)),
            Some(Answer::Is(o)) => Ok(*o),
            _ => {
                let known = self.chain.resolve_pub_witness_ord(id)?;
                Ok(self.ord.unwrap_or(known))
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Want {
    /// Validation has to fail.
    Fail,
    /// Validation may fail; otherwise nothing but genuine state is learned.
    Sound,
    /// As before, and the dangling end of the history is reported.
    Told,
    /// Made by the holder in accordance with the rules.
    Legal,
}

struct Bench<'a> {
    ctx: &'a Ctx,
    chain: &'a Chain,
    /// What a stock learns from the genuine consignment.
    genuine: BTreeMap<String, BTreeSet<String>>,
    taker: Stock,
    cid: ContractId,
}

const ORDS: [(&str, Option<WitnessOrd>); 2] = [("as-is", None), ("archived", Some(WitnessOrd::Archived))];

impl Bench<'_> {
    fn learn(&self, t: Transfer, ans: &Answers) -> R<BTreeSet<String>> {
        let valid = t.validate(ans, true).map_err(|(s, _)| s).sut("genuine consignment")?;
        let mut s = fresh_stock()?;
        s.accept_transfer(valid, ans).sut("accept_transfer")?;
        Ok(all_lines(&s)?.into_iter().collect())
    }

    fn judge(&self, name: &str, want: Want, t: &Transfer, extra: &[bp::Tx]) -> R {
        let mut chain = self.chain.clone();
        for tx in extra {
            chain.put(tx.clone(), WitnessOrd::Tentative);
        }
        self.ctx.distinct(&bytes(t));
        for (o, ord) in ORDS {
            self.ctx.eval();
            let ans = Answers { chain: &chain, ord, each: BTreeMap::new() };
            let res = guard(&format!("validate {name}"), || Ok(t.clone().validate(&ans, true)))?;
            let kind = name.split(['/', ' ']).next().unwrap_or("").to_string();
            let valid = match res {
                Err(_) => {
                    if want == Want::Legal {
                        self.ctx.outcome(format!("{kind}:refused-though-legal"));
                    } else {
                        self.ctx.outcome(format!("{kind}:refused"));
                    }
                    if !self.ctx.thorough && kind.starts_with("forged") {
                        break;
                    }
                    continue;
                }
                Ok(v) => v,
            };
            crate::ensure!(want != Want::Fail, format!("accepted-{kind}"), "{name} ({o}): altered consignment passes validation");
            if want == Want::Told {
                crate::ensure!(
                    !valid.validation_status().warnings.is_empty(),
                    format!("silent-{kind}"),
                    "{name} ({o}): nothing is said about the missing end of the history"
                );
            }
            self.ctx.outcome(format!("{kind}:accepted"));
            if want == Want::Legal {
                continue;
            }
            for (who, mut stock) in [("fresh", fresh_stock()?), ("taker", self.copy_taker())] {
                let res = guard(&format!("accept {name}"), || Ok(stock.accept_transfer(valid.clone(), &ans).is_ok()))?;
                if !res {
                    self.ctx.outcome(format!("{kind}:not-taken"));
                }
                let genuine = &self.genuine[o];
                for l in all_lines(&stock)? {
                    crate::ensure!(
                        genuine.contains(&l) || who == "taker" && self.genuine["taker"].contains(&l),
                        format!("learned-{kind}"),
                        "{name} ({o}): {who} stock learned {l}"
                    );
                }
            }
        }
        Ok(())
    }

    fn copy_taker(&self) -> Stock {
        use nonasync::persistence::CloneNoPersistence;
        self.taker.clone_no_persistence()
    }
}

/// Commits operations by a new transaction spending `spent`.
fn anchored(cid: ContractId, ts: &[(Transition, BTreeSet<Outpoint>)], method: M, tweak: u32) -> R<(bp::Tx, Node)> {
    let ops: Vec<Op> =
        ts.iter().map(|(t, i)| Op { contract: cid, method, transition: t.clone(), inputs: i.clone() }).collect();
    let (tx, fascia) = witness(&ops, tweak)?;
    let bundle = fascia.bundles[&cid].iter().next().expect("bundle").clone();
    let (mpc, dbc) = match &fascia.anchor {
        AnchorSet::Opret(a) => {
            let a = a.to_merkle_proof(mpc::ProtocolId::from(cid)).sut("merkle proof")?;
            (a.mpc_proof, DbcProof::Opret(a.dbc_proof))
        }
        AnchorSet::Tapret(a) => {
            let a = a.to_merkle_proof(mpc::ProtocolId::from(cid)).sut("merkle proof")?;
            (a.mpc_proof, DbcProof::Tapret(a.dbc_proof))
        }
        AnchorSet::Double { .. } => panic!("single method"),
    };
    let wit = XChain::Bitcoin(PubWitness::Tx(tx.clone()));
    Ok((tx, Node { wit, leaves: vec![Leaf { mpc, dbc, bundle }] }))
}

fn rekey(b: &mut TransitionBundle, old: OpId, new: Option<OpId>, t: &Transition, map: bool) {
    let mut known = b.known_transitions.clone().release();
    known.remove(&old);
    known.insert(new.unwrap_or(old), t.clone());
    b.known_transitions = Confined::try_from(known).expect("size");
    if map {
        if let Some(new) = new {
            let m: BTreeMap<_, _> =
                b.input_map.iter().map(|(v, o)| (*v, if *o == old { new } else { *o })).collect();
            b.input_map = InputMap::from_inner(Confined::try_from(m).expect("size"));
        }
    }
}

fn alter(b: &Bench, t: &Transfer, deep: bool) -> R {
    let nodes = open(t);
    let put = |name: &str, want: Want, nodes: &[Node], extra: &[bp::Tx]| -> R {
        match close(t, nodes) {
            Some(t) => b.judge(name, want, &t, extra),
            None => Ok(()),
        }
    };
    // operations by identifier, and who needs whom
    let mut needed: BTreeSet<OpId> = BTreeSet::new();
    let mut opouts: BTreeSet<Opout> = BTreeSet::new();
    let mut holders: BTreeMap<Opout, XChain<GraphSeal>> = BTreeMap::new();
    let mut wits: BTreeMap<OpId, Txid> = BTreeMap::new();
    let mut add = |op: OpId, a: Assignments<GraphSeal>| {
        for (ty, l) in a.iter() {
            for no in 0..l.len_u16() {
                let o = Opout::new(op, *ty, no);
                opouts.insert(o);
                if let Ok(Some(s)) = l.revealed_seal_at(no) {
                    holders.insert(o, s);
                }
            }
        }
    };
    add(t.genesis.id(), t.genesis.assignments.transmutate_seals());
    for n in &nodes {
        for l in &n.leaves {
            for (id, op) in &l.bundle.known_transitions {
                needed.extend((&op.inputs).into_iter().map(|i| i.prev_out.op));
                wits.insert(*id, wid(n));
                add(*id, op.assignments.clone());
            }
        }
    }
    let place = |o: &Opout| -> Option<Outpoint> {
        let XChain::Bitcoin(s) = holders.get(o)? else { return None };
        let txid = match s.txid {
            TxPtr::Txid(t) => t,
            TxPtr::WitnessTx => *wits.get(&o.op)?,
        };
        Some(Outpoint::new(txid, s.vout))
    };
    let spent = |op: &Transition| -> BTreeSet<Outpoint> { (&op.inputs).into_iter().filter_map(|i| place(&i.prev_out)).collect() };

    // 1. parts taken away
    let loss = |ids: &[OpId], l: &[&Leaf]| {
        if ids.iter().any(|id| needed.contains(id)) {
            Want::Fail
        } else if l.iter().any(|l| t.terminals.contains_key(&l.bundle.bundle_id())) {
            Want::Told
        } else {
            Want::Sound
        }
    };
    for i in 0..nodes.len() {
        let mut v = nodes.clone();
        let n = v.remove(i);
        let ids: Vec<OpId> = n.leaves.iter().flat_map(|l| l.bundle.known_transitions.keys().copied()).collect();
        put(&format!("drop-witness/{i}"), loss(&ids, &n.leaves.iter().collect::<Vec<_>>()), &v, &[])?;
        for j in 0..n.leaves.len() {
            if n.leaves.len() > 1 {
                let mut v = nodes.clone();
                let l = v[i].leaves.remove(j);
                let ids: Vec<OpId> = l.bundle.known_transitions.keys().copied().collect();
                put(&format!("drop-bundle/{i}.{j}"), loss(&ids, &[&l]), &v, &[])?;
            }
        }
        for j in 0..n.leaves.len() {
            let l = &n.leaves[j];
            for (k, id) in l.bundle.known_transitions.keys().enumerate() {
                let mut known = l.bundle.known_transitions.clone().release();
                known.remove(id);
                let mut v = nodes.clone();
                if let Ok(known) = Confined::try_from(known) {
                    v[i].leaves[j].bundle.known_transitions = known;
                    put(&format!("drop-operation/{i}.{j}.{k}"), if needed.contains(id) { Want::Fail } else { Want::Sound }, &v, &[])?;
                }
            }
            for (vin, id) in &l.bundle.input_map {
                let base = l.bundle.input_map.clone().into_inner().release();
                let mut maps = vec![];
                let mut m = base.clone();
                m.remove(vin);
                maps.push(("unmap".to_string(), m));
                for to in 0..4u32 {
                    let to = Vout::from_u32(to);
                    if !base.contains_key(&to) {
                        let mut m = base.clone();
                        m.remove(vin);
                        m.insert(to, *id);
                        maps.push((format!("moved{to}"), m));
                        let mut m = base.clone();
                        m.insert(to, *id);
                        maps.push((format!("added{to}"), m));
                    }
                }
                for other in wits.keys().chain([&t.genesis.id()]) {
                    if other != id {
                        let mut m = base.clone();
                        m.insert(*vin, *other);
                        maps.push((format!("points-{}", &other.to_string()[..6]), m));
                    }
                }
                for (n, m) in maps {
                    let Ok(m) = Confined::try_from(m) else { continue };
                    let mut v = nodes.clone();
                    v[i].leaves[j].bundle.input_map = InputMap::from_inner(m);
                    put(&format!("input-map/{i}.{j}.{vin}.{n}"), Want::Fail, &v, &[])?;
                }
            }
        }
    }

    // 2. proofs and transactions exchanged
    let (foreign, _) = {
        let o = Outpoint::new(fund_txid(70), Vout::from_u32(0));
        let any = nodes.iter().flat_map(|n| n.leaves.iter()).flat_map(|l| l.bundle.known_transitions.values()).next();
        match any {
            Some(x) => anchored(b.cid, &[(x.clone(), [o].into())], OP, 5)?,
            None => return Ok(()),
        }
    };
    for i in 0..nodes.len() {
        for j in 0..nodes.len() {
            for (li, a) in nodes[i].leaves.iter().enumerate() {
                for (lj, c) in nodes[j].leaves.iter().enumerate() {
                    if (i, li) == (j, lj) {
                        continue;
                    }
                    let same = a.mpc == c.mpc;
                    let mut v = nodes.clone();
                    v[i].leaves[li].mpc = c.mpc.clone();
                    put(&format!("proof/{i}.{li}-from-{j}.{lj}"), if same { Want::Sound } else { Want::Fail }, &v, &[])?;
                    let mut v = nodes.clone();
                    v[i].leaves[li].dbc = c.dbc.clone();
                    put(&format!("commitment/{i}.{li}-from-{j}.{lj}"), if a.dbc == c.dbc { Want::Sound } else { Want::Fail }, &v, &[])?;
                    if i != j {
                        // contents exchanged
                        let mut v = nodes.clone();
                        v[i].leaves[li].bundle = c.bundle.clone();
                        v[j].leaves[lj].bundle = a.bundle.clone();
                        put(&format!("swap/{i}.{li}-{j}.{lj}"), Want::Fail, &v, &[])?;
                        let mut v = nodes.clone();
                        v[i].leaves[li] = c.clone();
                        put(&format!("repeat-instead/{i}.{li}-{j}.{lj}"), Want::Fail, &v, &[])?;
                        let mut v = nodes.clone();
                        v[i].leaves.push(c.clone());
                        put(&format!("repeat-beside/{i}-{j}.{lj}"), Want::Fail, &v, &[])?;
                    }
                }
            }
        }
        let txid = wid(&nodes[i]);
        let mut ids: Vec<(String, XPubWitness)> = vec![
            ("unknown".into(), XChain::Bitcoin(PubWitness::Txid(fund_txid(71)))),
            ("foreign".into(), XChain::Bitcoin(PubWitness::Txid(foreign.txid()))),
            ("liquid".into(), XChain::Liquid(PubWitness::Txid(txid))),
        ];
        for o in b.chain.txs.keys().filter(|o| **o != txid) {
            ids.push((format!("known-{}", &o.to_string()[..6]), XChain::Bitcoin(PubWitness::Txid(*o))));
        }
        let mut tx = b.chain.txs[&txid].clone();
        tx.lock_time = LockTime::from_consensus_u32(999);
        ids.push(("altered".into(), XChain::Bitcoin(PubWitness::Tx(tx))));
        for (n, w) in ids {
            let mut v = nodes.clone();
            v[i].wit = w.clone();
            put(&format!("witness/{i}.{n}"), Want::Fail, &v, &[foreign.clone()])?;
            // the same operations once more under that transaction
            for j in 0..nodes[i].leaves.len() {
                let mut v = nodes.clone();
                v.push(Node { wit: w.clone(), leaves: vec![nodes[i].leaves[j].clone()] });
                put(&format!("repeat/{i}.{j}.{n}"), Want::Fail, &v, &[foreign.clone()])?;
                for (id, op) in &nodes[i].leaves[j].bundle.known_transitions {
                    for (m, f, _) in transitions(op, &t.schema, &BTreeSet::new()) {
                        if !deep && !(m == "nonce" || m.contains("more") || m.contains("vout")) || f.id() == *id {
                            continue;
                        }
                        let mut l = nodes[i].leaves[j].clone();
                        rekey(&mut l.bundle, *id, None, &f, false);
                        let mut v = nodes.clone();
                        v.push(Node { wit: w.clone(), leaves: vec![l] });
                        put(&format!("repeat-forged/{i}.{j}.{n}.{m}"), Want::Fail, &v, &[foreign.clone()])?;
                    }
                }
            }
        }
        // the same transaction, named or in full
        let mut v = nodes.clone();
        v[i].wit = XChain::Bitcoin(PubWitness::Txid(txid));
        put(&format!("named-witness/{i}"), Want::Sound, &v, &[])?;
    }

    // 3. operations forged, with the traces covered step by step
    for i in 0..nodes.len() {
        for j in 0..nodes[i].leaves.len() {
            let leaf = &nodes[i].leaves[j];
            for (k, (id, op)) in leaf.bundle.known_transitions.iter().enumerate() {
                for (m, f, illegal) in transitions(op, &t.schema, &opouts) {
                    let new = f.id();
                    if new == *id {
                        b.ctx.outcome("same-operation");
                        continue;
                    }
                    let name = |level: &str| format!("forged-{level}/{i}.{j}.{k}.{m}");
                    let with = |f: &dyn Fn(&mut TransitionBundle)| {
                        let mut v = nodes.clone();
                        f(&mut v[i].leaves[j].bundle);
                        v
                    };
                    put(&name("value"), Want::Fail, &with(&|b| rekey(b, *id, None, &f, false)), &[])?;
                    put(&name("key"), Want::Fail, &with(&|b| rekey(b, *id, Some(new), &f, false)), &[])?;
                    put(&name("map"), Want::Fail, &with(&|b| rekey(b, *id, Some(new), &f, true)), &[])?;
                    put(
                        &name("added"),
                        Want::Fail,
                        &with(&|b| {
                            let mut known = b.known_transitions.clone().release();
                            known.insert(new, f.clone());
                            b.known_transitions = Confined::try_from(known).expect("size");
                        }),
                        &[],
                    )?;
                    // committed again
                    let all = |coins: &dyn Fn(&Transition) -> BTreeSet<Outpoint>, tweak: u32| {
                        let list: Vec<_> = leaf
                            .bundle
                            .known_transitions
                            .values()
                            .map(|x| if x.id() == *id { (f.clone(), coins(op)) } else { (x.clone(), coins(x)) })
                            .collect();
                        anchored(b.cid, &list, leaf.bundle.close_method, tweak)
                    };
                    if nodes[i].leaves.len() > 1 {
                        continue;
                    }
                    let (tx, n) = all(&spent, 21)?;
                    let mut v = nodes.clone();
                    v[i] = n;
                    put(&name("unpublished"), Want::Fail, &v, &[])?;
                    let want = if illegal || needed.contains(id) { Want::Fail } else { Want::Legal };
                    put(&name("published"), want, &v, &[tx])?;
                    if want == Want::Fail && !needed.contains(id) {
                        // without the code which would detect that
                        let t2 = close(t, &v).map(|mut t| {
                            t.scripts = none!();
                            t
                        });
                        if let Some(t2) = t2 {
                            let (tx, _) = all(&spent, 21)?;
                            b.judge(&name("uncoded"), Want::Fail, &t2, &[tx])?;
                        }
                    }
                    let (tx, n) = all(&|_| [Outpoint::new(fund_txid(72), Vout::from_u32(0))].into(), 22)?;
                    let mut v = nodes.clone();
                    v[i] = n;
                    put(&name("elsewhere"), Want::Fail, &v, &[tx])?;
                }
            }
        }
    }

    // 4. origin and rules
    for (n, g) in geneses(&t.genesis) {
        if g.id() == t.genesis.id() {
            continue;
        }
        let mut x = t.clone();
        x.genesis = g;
        b.judge(&format!("genesis/{n}"), Want::Fail, &x, &[])?;
    }
    for (n, s) in schemata(&t.schema) {
        let mut x = t.clone();
        x.schema = s;
        b.judge(&format!("schema/{n}"), Want::Fail, &x, &[])?;
    }
    let libs = libs_of(&t.schema, &t.scripts);
    for lib in &t.scripts {
        let mut x = t.clone();
        x.scripts = Confined::from_iter_checked(t.scripts.iter().filter(|l| l.id() != lib.id()).cloned());
        b.judge(&format!("script/{}", &lib.id().to_string()[..12]), if libs.contains(&lib.id()) { Want::Fail } else { Want::Sound }, &x, &[])?;
    }
    let top: BTreeSet<_> = t
        .schema
        .meta_types
        .values()
        .copied()
        .chain(t.schema.global_types.values().map(|g| g.sem_id))
        .chain(t.schema.owned_types.values().filter_map(|o| match o {
            OwnedStateSchema::Structured(id) => Some(*id),
            _ => None,
        }))
        .collect();
    for (k, (id, _)) in t.types.iter().enumerate() {
        if !deep && !top.contains(id) {
            continue;
        }
        let mut x = t.clone();
        x.types = TypeSystem::from_inner(Confined::from_iter_checked(
            t.types.iter().filter(|y| y.0 != id).map(|(a, b)| (*a, b.clone())),
        ));
        b.judge(&format!("type/{k}"), if top.contains(id) { Want::Fail } else { Want::Sound }, &x, &[])?;
    }
    for (n, x) in [("no-types", { let mut x = t.clone(); x.types = none!(); x }), ("no-ifaces", { let mut x = t.clone(); x.ifaces = none!(); x })] {
        b.judge(&format!("{n}/"), if n == "no-types" { Want::Fail } else { Want::Sound }, &x, &[])?;
    }
    Ok(())
}

/// The same consignment against all answers of the chain.
fn answers(b: &Bench, t: &Transfer, full: usize) -> R {
    let ids: Vec<Txid> = open(t).iter().map(wid).collect();
    let alphabet = [
        Answer::Honest,
        Answer::NoTx,
        Answer::NoOrd,
        Answer::OtherTx,
        Answer::Conflict,
        Answer::Is(WitnessOrd::Archived),
        Answer::Is(mined(7)),
    ];
    let several = b.chain.txs.len() > 1;
    let n = ids.len();
    for code in 0..alphabet.len().pow(n as u32) {
        let mut c = code;
        let pick: Vec<Answer> = (0..n)
            .map(|_| {
                let a = alphabet[c % alphabet.len()];
                c /= alphabet.len();
                a
            })
            .collect();
        let odd = pick.iter().filter(|a| **a != Answer::Honest).count();
        if odd > full || !several && pick.contains(&Answer::OtherTx) {
            continue;
        }
        b.ctx.eval();
        let ans = Answers { chain: b.chain, ord: None, each: ids.iter().copied().zip(pick.iter().copied()).collect() };
        let res = guard("validate", || Ok(t.clone().validate(&ans, true)))?;
        let good = pick.iter().all(|a| matches!(a, Answer::Honest | Answer::Is(_)));
        let ok = res.is_ok();
        crate::ensure!(ok || !good, "refused-by-status", "{pick:?}: genuine consignment is refused: {:?}", res.err().map(|e| e.0.failures));
        crate::ensure!(!ok || good, "accepted-unconfirmed", "{pick:?}: accepted without its transactions");
        b.ctx.outcome(if ok { "answers:accepted" } else { "answers:refused" });
    }
    let ans = Answers { chain: b.chain, ord: None, each: BTreeMap::new() };
    crate::ensure!(t.clone().validate(&ans, false).is_err(), "accepted-other-network", "test network consignment is accepted for the main one");
    Ok(())
}

/// Holder spends one piece of state by two operations of one transaction.
fn twice(ctx: &Ctx, h: &Hist) -> R {
    for (c, cid) in h.w.contracts.iter().enumerate() {
        let stock = &h.w.wallets[0].stock;
        let coins = h.coins(0);
        let found = stock.contract_assignments_for(*cid, coins.iter().map(|o| xo(*o))).sut("assignments")?;
        let mut all: Vec<_> = found
            .into_iter()
            .filter(|(s, _)| s.method() == OP)
            .flat_map(|(s, l)| l.into_iter().map(move |(o, st)| (bitcoin(XOutpoint::from(s.map(|s| Outpoint::new(s.txid, s.vout)))), o, st)))
            .filter(|x| x.1.ty == OS_ASSET || x.1.ty == B_ASSET)
            .collect();
        all.sort_by_key(|x| x.1);
        for (i, x) in all.iter().enumerate() {
            for y in &all[i + 1..] {
                if x.0 == y.0 {
                    continue;
                }
                for swap in [false, true] {
                    let (x, y) = if swap { (y, x) } else { (x, y) };
                    let make = |ins: &[&(Outpoint, Opout, rgbstd::persistence::PersistedState)], n: u64| -> R<Transition> {
                        let mut b = stock.transition_builder(*cid, "LabAsset", Some("transfer")).sut("transition_builder")?;
                        for (k, i) in ins.iter().enumerate() {
                            b = b.add_input(i.1, i.2.clone()).sut("add_input")?;
                            b = b.add_owned_state_raw(i.1.ty, vseal(OP, 2, n + k as u64), i.2.clone()).sut("add_owned_state_raw")?;
                        }
                        b.complete_transition().sut("complete_transition")
                    };
                    let a = make(&[x], 50)?;
                    let b = make(&[x, y], 60)?;
                    let good = make(&[y], 70)?;
                    for (name, second, coins, ok) in [("honest", good, [y.0], true), ("double", b, [y.0], false)] {
                        ctx.eval();
                        let (tx, node) = anchored(*cid, &[(a.clone(), [x.0].into()), (second, coins.into())], OP, 31)?;
                        let t = stock.transfer(*cid, [oseal(OP, x.0), oseal(OP, y.0)], None).sut("transfer")?;
                        let mut nodes = open(&t);
                        nodes.push(node);
                        let Some(t) = close(&t, &nodes) else { continue };
                        let mut chain = h.w.chain.clone();
                        chain.put(tx, WitnessOrd::Tentative);
                        let res = t.validate(&chain, true);
                        if ok {
                            if let Err((s, _)) = &res {
                                fail!("refused-honest", "contract {c}: {:?}", s.failures);
                            }
                        } else {
                            crate::ensure!(res.is_err(), "accepted-double-spend", "contract {c}: state spent by two operations of one transaction is accepted");
                        }
                        ctx.outcome(format!("twice:{name}"));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every byte of the operations and their proofs altered.
fn bytewise(b: &Bench, t: &Transfer) -> R {
    let data = bytes(t);
    let head = {
        use strict_encoding::{StrictEncode, StrictWriter};
        let w = StrictWriter::in_memory::<{ u32::MAX as usize }>();
        t.bundles.strict_encode(w).expect("serializable").unbox().unconfine()
    };
    let at = data.windows(head.len()).position(|w| w == head).expect("bundles");
    let masks: &[u8] = if b.ctx.thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 255] };
    for i in at..at + head.len() {
        for m in masks {
            let mut d = data.clone();
            d[i] ^= m;
            let y = guard("decode", || {
                let d = Confined::try_from(d.clone()).expect("size");
                Ok(Transfer::from_strict_serialized::<{ u32::MAX as usize }>(d).ok())
            })?;
            let Some(y) = y else {
                b.ctx.eval();
                b.ctx.outcome("byte:unreadable");
                continue;
            };
            b.judge(&format!("byte/{}^{m}", i - at), Want::Sound, &y, &[])?;
        }
    }
    Ok(())
}

struct P12 {
    menu: Menu,
    deep: bool,
    bytes: bool,
}

impl P12 {
    fn inspect(&self, ctx: &Ctx, h: &Hist) -> R {
        let _quiet = silence();
        if h.pays.is_empty() {
            return Ok(());
        }
        let k = h.pays.len() - 1;
        let (p, to, c, _) = &h.pays[k];
        let cid = h.w.contracts[*c];
        let t = h.w.transfer(p.from, cid, &p.outputs, p.secret)?;
        let mut b = Bench {
            ctx,
            chain: &h.w.chain,
            genuine: BTreeMap::new(),
            taker: {
                use nonasync::persistence::CloneNoPersistence;
                h.w.wallets[*to].stock.clone_no_persistence()
            },
            cid,
        };
        for (o, ord) in ORDS {
            let ans = Answers { chain: b.chain, ord, each: BTreeMap::new() };
            let l = b.learn(t.clone(), &ans)?;
            b.genuine.insert(o.into(), l);
        }
        b.genuine.insert("taker".into(), all_lines(&b.taker)?.into_iter().collect());
        answers(&b, &t, if self.deep { 3 } else { 2 })?;
        alter(&b, &t, self.deep)?;
        if self.bytes {
            bytewise(&b, &t)?;
        }
        Ok(())
    }
}

impl Space for P12 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        let n = s.pays.len();
        s.apply(a)?;
        twice(ctx, s)?;
        if s.pays.len() > n {
            self.inspect(ctx, s)?;
        }
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

pub fn check(ctx: &Ctx) -> i32 {
    let menu = Menu { bens: vec![Ben::Blind(OP), Ben::Vout(OP)], sweep: true, all_coins: true, each_coin: false, tokens: false, ..Menu::default() };
    let roots = [Root::One(OP), Root::One(TAP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin];
    let bytes = Menu { bens: vec![Ben::Vout(OP)], sweep: false, ..menu.clone() };
    if ctx.thorough {
        explore(ctx, &P12 { menu: menu.clone(), deep: false, bytes: false }, &roots, 2);
        explore(ctx, &P12 { menu, deep: true, bytes: true }, &roots, 1);
    } else {
        explore(ctx, &P12 { menu: menu.clone(), deep: false, bytes: false }, &roots, 1);
        let short = Menu { bens: vec![Ben::Blind(OP)], ..menu };
        explore(ctx, &P12 { menu: short, deep: false, bytes: false }, &[Root::One(OP), Root::Twin], 2);
        explore(ctx, &P12 { menu: bytes, deep: false, bytes: true }, &[Root::One(OP)], 1);
    }
    ctx.finish(
        "fault_enumeration",
        "alterations of consignments from all histories of the action menu up to the depth (one step, two from two roots; thorough: two from all), each validated against all listed answers of the chain (quick: a forged operation until the first refusal) and, if valid, accepted by stocks; bytes altered by two masks (thorough: nine) in single payments; non-trivial = distinct readable altered consignment",
        &["proofs of ownership are those of the mock chain, where every listed transaction is properly signed"],
    )
}
