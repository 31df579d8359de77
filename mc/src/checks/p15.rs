//! Builders of operations: all sequences of calls, valid and invalid, up to a
//! depth; what was accepted is compared with the operation produced.

use std::collections::BTreeMap;
use std::fmt::{self, Display};

use amplify::Wrapper;
use bp::Outpoint;
use commit_verify::{CommitVerify, Conceal};
use rgbstd::containers::BuilderSeal;
use rgbstd::interface::{BuilderError, ContractBuilder, TransitionBuilder};
use rgbstd::persistence::PersistedState;
use rgbstd::*;
use secp256k1_zkp::{verify_commitments_sum_to_equal, SECP256K1};

use crate::core::{guard, Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// A call of a builder; amounts, seals and values come from small sets.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum A {
    Meta(u8),
    Global(u8),
    Input(u8),
    Right(&'static str, u8),
    Amount(&'static str, u8, u64),
    Default(u8, u64),
    Data(&'static str, u8, u8),
    Doc(&'static str, u8),
    Raw(u16, u8, u8),
    Tag(&'static str, u8),
    Layer,
    Mainnet,
    Nonce(u64),
}
impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Meta(k) => write!(f, "meta.{}", ["memo5", "memo6", "unknown", "mistyped"][*k as usize]),
            A::Global(k) => write!(f, "global.{}", ["note1", "note2", "spec", "unknown", "mistyped"][*k as usize]),
            A::Input(k) => write!(f, "in.{}", INPUTS[*k as usize].0),
            A::Right(n, s) => write!(f, "right.{n}@{s}"),
            A::Amount(n, s, v) => write!(f, "amount.{n}@{s}.{v}"),
            A::Default(s, v) => write!(f, "default@{s}.{v}"),
            A::Data(n, s, k) => write!(f, "data.{n}@{s}.{k}"),
            A::Doc(n, s) => write!(f, "doc.{n}@{s}"),
            A::Raw(ty, s, k) => write!(f, "raw.{ty}@{s}.{k}"),
            A::Tag(n, k) => write!(f, "tag.{n}.{k}"),
            A::Layer => write!(f, "liquid"),
            A::Mainnet => write!(f, "mainnet"),
            A::Nonce(n) => write!(f, "nonce{n}"),
        }
    }
}

const INPUTS: [(&str, u16, u16); 9] = [
    ("asset5", 1000, 0),
    ("asset7", 1000, 1),
    ("bonus5", 1001, 0),
    ("right", 1002, 0),
    ("token", 1003, 0),
    ("doc", 1004, 0),
    // refused
    ("asset-as-right", 1000, 2),
    ("token-as-amount", 1003, 2),
    ("unknown-type", 1999, 0),
];

fn tag(no: u8) -> AssetTag {
    let mut b = [0x0Au8; 32];
    b[0] = no;
    AssetTag::from(b)
}

fn input(k: u8) -> (Opout, PersistedState) {
    let (name, ty, no) = INPUTS[k as usize];
    let opid = OpId::copy_from_slice([0x33u8; 32]).expect("length");
    let opout = Opout::new(opid, AssignmentType::with(ty), no);
    let state = match name {
        "asset5" => PersistedState::Amount(Amount::from(5u64), blinding(501), tag(1)),
        "asset7" => PersistedState::Amount(Amount::from(7u64), blinding(502), tag(1)),
        "bonus5" => PersistedState::Amount(Amount::from(5u64), blinding(503), tag(2)),
        "right" | "asset-as-right" | "unknown-type" => PersistedState::Void,
        "token" => PersistedState::Data(DataState::from(Allocation::with(1, 2)), 5),
        "doc" => PersistedState::Attachment(doc_state(1), 6),
        "token-as-amount" => PersistedState::Amount(Amount::from(5u64), blinding(504), tag(1)),
        _ => unreachable!(),
    };
    (opout, state)
}

fn outpoint(n: u8) -> Outpoint { Outpoint::new(fund_txid(n as u64), bp::Vout::from_u32(1)) }

/// 0 and 1 are open seals, 2 and 3 blinded ones; 4 is on another layer.
fn gs(n: u8) -> BuilderSeal<GenesisSeal> {
    match n {
        0 | 1 => BuilderSeal::Revealed(gseal(OP, outpoint(n), 40 + n as u64)),
        2 | 3 => BuilderSeal::Concealed(gseal(TAP, outpoint(n), 40 + n as u64).conceal()),
        _ => match gseal(OP, outpoint(n), 44) {
            XChain::Bitcoin(s) => BuilderSeal::Revealed(XChain::Liquid(s)),
            x => BuilderSeal::Revealed(x),
        },
    }
}
fn ts(n: u8) -> BuilderSeal<GraphSeal> {
    match n {
        0 => BuilderSeal::Revealed(vseal(OP, 1, 40)),
        1 => BuilderSeal::Revealed(bseal(TAP, outpoint(1), 41)),
        _ => BuilderSeal::Concealed(bseal(TAP, outpoint(n), 40 + n as u64).conceal()),
    }
}
fn skey<S: fmt::Debug + Ord + bp::seals::txout::TxoSeal>(s: &BuilderSeal<S>) -> String {
    match s {
        BuilderSeal::Revealed(s) => format!("{s:?}"),
        BuilderSeal::Concealed(s) => format!("{s:?}"),
    }
}

/// What a builder accepted.
#[derive(Clone, Default)]
struct Model {
    meta: BTreeMap<MetaType, Vec<u8>>,
    globals: BTreeMap<GlobalStateType, Vec<Vec<u8>>>,
    inputs: BTreeMap<Opout, PersistedState>,
    /// Per type: seal, value and blinding or salt if given.
    outs: BTreeMap<AssignmentType, Vec<(String, String, Option<String>)>>,
    tags: BTreeMap<AssignmentType, Option<AssetTag>>,
    liquid: bool,
    mainnet: bool,
    nonce: Option<u64>,
}

#[derive(Clone)]
enum B {
    T(TransitionBuilder),
    C(ContractBuilder),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Named(&'static str),
    Blank,
    Default,
    /// Contract, with tags given in advance or not.
    Contract(bool),
}
#[derive(Clone, Copy, Debug)]
struct Base {
    kind: Kind,
    det: bool,
}
impl Display for Base {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let k = match self.kind {
            Kind::Named(n) => n,
            Kind::Blank => "blank",
            Kind::Default => "default",
            Kind::Contract(true) => "contract",
            Kind::Contract(false) => "contract-untagged",
        };
        write!(f, "{k}{}", if self.det { "-det" } else { "" })
    }
}

struct S {
    base: Base,
    b: B,
    m: Model,
    n: u64,
}

struct P15 {
    short: bool,
}

fn kind_of(name: &str) -> Option<(AssignmentType, StateType)> {
    Some(match name {
        "asset" => (OS_ASSET, StateType::Fungible),
        "bonus" => (OS_BONUS, StateType::Fungible),
        "right" => (OS_RIGHT, StateType::Void),
        "token" => (OS_TOKEN, StateType::Structured),
        "doc" => (OS_DOC, StateType::Attachment),
        _ => return None,
    })
}

/// A value of the type of tokens, or not.
fn data(k: u8) -> (DataState, bool) {
    match k {
        0 => (DataState::from(Allocation::with(1, 10)), true),
        1 => (DataState::from(Allocation::with(2, 20)), true),
        _ => (DataState::from(amplify::confinement::Confined::try_from(vec![1u8, 2, 3]).expect("short")), false),
    }
}

impl S {
    /// The model after the call; none if the call has to be refused.
    fn expect(&self, a: &A) -> Option<Model> {
        let mut m = self.m.clone();
        let contract = matches!(self.base.kind, Kind::Contract(_));
        let skey = |s: u8| if contract { skey(&gs(s)) } else { skey(&ts(s)) };
        let layer = |m: &Model, s: u8| !contract || s != 4 || m.liquid;
        let mut out = |m: &mut Model, ty, s: u8, v: String, b: Option<String>| {
            m.outs.entry(ty).or_default().push((skey(s), v, b));
        };
        match *a {
            A::Meta(k @ (0 | 1)) => {
                if m.meta.contains_key(&MS_MEMO) {
                    return None;
                }
                m.meta.insert(MS_MEMO, bytes(&Amount::from(5 + k as u64)));
            }
            A::Meta(_) => return None,
            A::Global(k @ (0 | 1)) => m.globals.entry(GS_NOTE).or_default().push(bytes(&Amount::from(1 + k as u64))),
            A::Global(2) => m.globals.entry(GS_SPEC).or_default().push(bytes(&asset_spec(0))),
            A::Global(_) => return None,
            A::Input(k) => {
                if k >= 6 {
                    return None;
                }
                let (o, s) = input(k);
                m.inputs.insert(o, s);
            }
            A::Right(name, s) => match kind_of(name) {
                Some((ty, StateType::Void)) if layer(&m, s) => out(&mut m, ty, s, "right".into(), None),
                _ => return None,
            },
            A::Amount(name, s, v) => match kind_of(name) {
                Some((ty, StateType::Fungible)) if layer(&m, s) => {
                    if contract {
                        m.tags.entry(ty).or_insert(None);
                    }
                    let b = self.base.det.then(|| format!("{:?}", blinding(600 + self.n)));
                    out(&mut m, ty, s, v.to_string(), b);
                }
                _ => return None,
            },
            A::Default(s, v) => {
                if self.base.kind == Kind::Blank {
                    return None;
                }
                let b = self.base.det.then(|| format!("{:?}", blinding(600 + self.n)));
                out(&mut m, OS_ASSET, s, v.to_string(), b);
            }
            A::Data(name, s, k) => match kind_of(name) {
                Some((ty, StateType::Structured)) if layer(&m, s) => {
                    let (v, good) = data(k);
                    if !good {
                        return None;
                    }
                    let b = self.base.det.then(|| format!("{}", 70 + self.n));
                    out(&mut m, ty, s, format!("{v:?}"), b);
                }
                _ => return None,
            },
            A::Doc(name, s) => match kind_of(name) {
                Some((ty, StateType::Attachment)) if layer(&m, s) => {
                    let b = self.base.det.then(|| format!("{}", 80 + self.n));
                    out(&mut m, ty, s, format!("{:?}", doc_state(1)), b);
                }
                _ => return None,
            },
            A::Raw(ty, s, k) => {
                let ty = AssignmentType::with(ty);
                match (k, ty) {
                    (0, OS_RIGHT) => out(&mut m, ty, s, "right".into(), None),
                    (1, OS_ASSET) if m.tags[&OS_ASSET] == Some(tag(1)) => out(&mut m, ty, s, "12".into(), Some(format!("{:?}", blinding(700)))),
                    (3, OS_TOKEN) => out(&mut m, ty, s, format!("{:?}", data(0).0), Some("9".into())),
                    (4, OS_DOC) => out(&mut m, ty, s, format!("{:?}", doc_state(1)), Some("9".into())),
                    _ => return None,
                }
            }
            A::Tag(name, k) => match kind_of(name) {
                Some((ty, _)) if !m.outs.contains_key(&ty) => {
                    m.tags.insert(ty, Some(tag(k)));
                }
                _ => return None,
            },
            A::Layer => m.liquid = true,
            A::Mainnet => m.mainnet = true,
            A::Nonce(n) => m.nonce = Some(n),
        }
        Some(m)
    }

    fn call(&self, a: &A) -> Result<B, BuilderError> {
        let det = self.base.det;
        let bl = blinding(600 + self.n);
        match self.b.clone() {
            B::T(b) => match *a {
                A::Meta(k) => match k {
                    0 | 1 => b.add_metadata("memo", Amount::from(5 + k as u64)),
                    2 => b.add_metadata("nothing", Amount::from(5u64)),
                    _ => b.add_metadata("memo", asset_spec(0)),
                },
                A::Global(k) => match k {
                    0 | 1 => b.add_global_state("note", Amount::from(1 + k as u64)),
                    2 => b.add_global_state("spec", asset_spec(0)),
                    3 => b.add_global_state("nothing", Amount::from(1u64)),
                    _ => b.add_global_state("note", asset_spec(0)),
                },
                A::Input(k) => {
                    let (o, s) = input(k);
                    b.add_input(o, s)
                }
                A::Right(n, s) => b.add_rights(n, ts(s)),
                A::Amount(n, s, v) if det => b.add_fungible_state_det(n, ts(s), v, bl),
                A::Amount(n, s, v) => b.add_fungible_state(n, ts(s), v),
                A::Default(s, v) if det => b.add_fungible_default_state_det(ts(s), v, bl),
                A::Default(s, v) => b.add_fungible_default_state(ts(s), v),
                A::Data(n, s, k) if det => b.add_data_det(n, ts(s), RevealedData::with_salt(data(k).0, 70 + self.n as u128)),
                A::Data(n, s, k) => match k {
                    0 => b.add_data(n, ts(s), Allocation::with(1, 10)),
                    1 => b.add_data(n, ts(s), Allocation::with(2, 20)),
                    _ => b.add_data(n, ts(s), asset_spec(0)),
                },
                A::Doc(n, s) => {
                    let d = doc_state(1);
                    if det {
                        b.add_attachment_det(n, ts(s), RevealedAttach::with_salt(d.id, d.media_type, 80 + self.n))
                    } else {
                        b.add_attachment(n, ts(s), d)
                    }
                }
                A::Raw(ty, s, k) => {
                    let st = match k {
                        0 => PersistedState::Void,
                        1 => PersistedState::Amount(Amount::from(12u64), blinding(700), tag(1)),
                        2 => PersistedState::Amount(Amount::from(12u64), blinding(700), tag(9)),
                        3 => PersistedState::Data(data(0).0, 9),
                        5 => PersistedState::Data(data(2).0, 9),
                        _ => PersistedState::Attachment(doc_state(1), 9),
                    };
                    b.add_owned_state_raw(AssignmentType::with(ty), ts(s), st)
                }
                A::Tag(n, k) => b.add_asset_tag(n, tag(k)),
                A::Nonce(n) => Ok(b.set_nonce(n)),
                A::Layer | A::Mainnet => unreachable!(),
            }
            .map(B::T),
            B::C(b) => match *a {
                A::Meta(k) => match k {
                    0 | 1 => b.add_metadata("memo", Amount::from(5 + k as u64)),
                    2 => b.add_metadata("nothing", Amount::from(5u64)),
                    _ => b.add_metadata("memo", asset_spec(0)),
                },
                A::Global(k) => match k {
                    0 | 1 => b.add_global_state("note", Amount::from(1 + k as u64)),
                    2 => b.add_global_state("spec", asset_spec(0)),
                    3 => b.add_global_state("nothing", Amount::from(1u64)),
                    _ => b.add_global_state("note", asset_spec(0)),
                },
                A::Right(n, s) => b.add_rights(n, gs(s)),
                A::Amount(n, s, v) if det => b.add_fungible_state_det(n, gs(s), v, bl),
                A::Amount(n, s, v) => b.add_fungible_state(n, gs(s), v),
                A::Data(n, s, k) if det => b.add_data_det(n, gs(s), RevealedData::with_salt(data(k).0, 70 + self.n as u128)),
                A::Data(n, s, k) => match k {
                    0 => b.add_data(n, gs(s), Allocation::with(1, 10)),
                    1 => b.add_data(n, gs(s), Allocation::with(2, 20)),
                    _ => b.add_data(n, gs(s), asset_spec(0)),
                },
                A::Doc(n, s) => {
                    let d = doc_state(1);
                    if det {
                        b.add_attachment_det(n, gs(s), RevealedAttach::with_salt(d.id, d.media_type, 80 + self.n))
                    } else {
                        b.add_attachment(n, gs(s), d)
                    }
                }
                A::Tag(n, k) => b.add_asset_tag(n, tag(k)),
                A::Layer => b.add_layer1(AltLayer1::Liquid),
                A::Mainnet => Ok(b.set_mainnet()),
                A::Input(_) | A::Raw(..) | A::Default(..) | A::Nonce(_) => unreachable!(),
            }
            .map(B::C),
        }
    }

    /// Compares the parts common to all operations.
    fn common<Seal: ExposedSeal>(
        &self,
        meta: &Metadata,
        globals: &GlobalState,
        assigns: &Assignments<Seal>,
        tags: &BTreeMap<AssignmentType, AssetTag>,
    ) -> R {
        let m = &self.m;
        let got: BTreeMap<MetaType, Vec<u8>> = meta.iter().map(|(k, v)| (*k, v.to_inner().to_vec())).collect();
        ensure!(got == m.meta, "metadata", "operation has metadata {got:?} instead of {:?}", m.meta);
        let got: BTreeMap<GlobalStateType, Vec<Vec<u8>>> =
            globals.iter().map(|(k, v)| (*k, v.iter().map(|x| x.to_inner().to_vec()).collect())).collect();
        let sorted = |x: &BTreeMap<GlobalStateType, Vec<Vec<u8>>>| {
            let mut x = x.clone();
            x.values_mut().for_each(|v| v.sort());
            x
        };
        ensure!(sorted(&got) == sorted(&m.globals), "globals", "operation has global state {got:?} instead of {:?}", m.globals);

        let mut types: Vec<_> = assigns.keys().copied().collect();
        types.sort();
        ensure!(types.iter().eq(m.outs.keys()), "types", "state of types {types:?} instead of {:?}", m.outs.keys());
        for (ty, a) in assigns.iter() {
            let mut got: Vec<(String, String, String)> = vec![];
            let mut values = vec![];
            macro_rules! take {
                ($list:expr, $f:expr) => {
                    for a in $list.iter() {
                        let (seal, st) = match a {
                            Assign::Revealed { seal, state, .. } => (format!("{seal:?}"), state),
                            Assign::ConfidentialSeal { seal, state, .. } => (format!("{seal:?}"), state),
                            _ => fail!("concealed", "operation conceals state"),
                        };
                        let (v, b) = $f(st);
                        got.push((seal, v, b));
                    }
                };
            }
            match a {
                TypedAssigns::Declarative(l) => take!(l, |_: &VoidState| ("right".to_string(), String::new())),
                TypedAssigns::Fungible(l) => take!(l, |v: &RevealedValue| {
                    values.push(*v);
                    (v.value.as_u64().to_string(), format!("{:?}", v.blinding))
                }),
                TypedAssigns::Structured(l) => {
                    take!(l, |v: &RevealedData| (format!("{:?}", v.value), v.salt.to_string()))
                }
                TypedAssigns::Attachment(l) => take!(l, |v: &RevealedAttach| {
                    (format!("{:?}", AttachState { id: v.file.id, media_type: v.file.media_type.clone() }), v.salt.to_string())
                }),
            }
            let want = &m.outs[ty];
            let mut g: Vec<_> = got.iter().map(|x| (&x.0, &x.1)).collect();
            let mut w: Vec<_> = want.iter().map(|x| (&x.0, &x.1)).collect();
            g.sort();
            w.sort();
            ensure!(g == w, "owned", "operation assigns {g:?} instead of {w:?}");
            // given blindings and salts are kept, but for the one which makes the balance
            let mut rest: Vec<_> = got.iter().collect();
            let mut changed = 0;
            for (s, v, b) in want {
                let i = rest.iter().position(|x| x.0 == *s && x.1 == *v && b.as_ref().map(|b| *b == x.2).unwrap_or(true));
                match i {
                    Some(i) => {
                        rest.remove(i);
                    }
                    None => changed += 1,
                }
            }
            ensure!(
                changed <= values.len().min(1),
                "altered",
                "blinding or salt of {changed} assignments of type {ty} differ from those given"
            );
            if !values.is_empty() {
                for v in &values {
                    ensure!(tags.get(ty) == Some(&v.tag), "tag", "amount carries a tag differing from the contract's");
                }
                let ins: Vec<(u64, BlindingFactor)> = m
                    .inputs
                    .iter()
                    .filter(|(o, _)| o.ty == *ty)
                    .map(|(_, s)| match s {
                        PersistedState::Amount(v, b, _) => (v.value(), *b),
                        _ => unreachable!(),
                    })
                    .collect();
                let total: u64 = values.iter().map(|v| v.value.as_u64()).sum();
                let ins = if ins.is_empty() { vec![(total, BlindingFactor::EMPTY)] } else { ins };
                if ins.iter().map(|x| x.0).sum::<u64>() == total {
                    let commit = |v: &RevealedValue| PedersenCommitment::commit(v).to_inner();
                    let a: Vec<_> =
                        ins.iter().map(|(v, b)| commit(&RevealedValue::with_blinding(*v, *b, values[0].tag))).collect();
                    let b: Vec<_> = values.iter().map(commit).collect();
                    ensure!(
                        verify_commitments_sum_to_equal(SECP256K1, &a, &b),
                        "unbalanced",
                        "commitments of type {ty} do not balance"
                    );
                }
            }
        }
        Ok(())
    }

    fn complete(&self, ctx: &Ctx) -> R {
        match self.b.clone() {
            B::T(b) => {
                ensure!(b.has_inputs() != self.m.inputs.is_empty(), "has-inputs", "has_inputs is wrong");
                let t = b.complete_transition().sut("complete_transition")?;
                ctx.outcome("transition");
                let mut ins: Vec<Opout> = t.inputs.iter().map(|i| i.prev_out).collect();
                ins.sort();
                ensure!(ins.iter().eq(self.m.inputs.keys()), "inputs", "inputs {ins:?} instead of {:?}", self.m.inputs.keys());
                ensure!(t.contract_id == cid(), "contract", "transition of another contract");
                let ty = match self.base.kind {
                    Kind::Named("annotate") => TS_ANNOTATE,
                    Kind::Named("move") => TS_MOVE,
                    Kind::Blank => TransitionType::BLANK,
                    _ => TS_TRANSFER,
                };
                ensure!(t.transition_type == ty, "type", "transition of type {}", t.transition_type);
                ensure!(t.nonce == self.m.nonce.unwrap_or(u64::MAX), "nonce", "nonce {}", t.nonce);
                let tags = self.m.tags.iter().map(|(k, v)| (*k, v.expect("given"))).collect();
                self.common(&t.metadata, &t.globals, &t.assignments, &tags)
            }
            B::C(b) => {
                let m = &self.m;
                let r = if self.base.det { b.issue_contract_det(TS) } else { b.issue_contract() };
                let count = |ty| m.globals.get(&ty).map(Vec::len).unwrap_or(0);
                let permitted = count(GS_SPEC) == 1
                    && count(GS_NOTE) <= NOTE_LIMIT as usize
                    && m.meta.is_empty();
                // attachments never pass the consensus validation in use
                let unsure = m.outs.contains_key(&OS_DOC) || m.tags.len() < 2;
                match r {
                    Err(e) => {
                        ensure!(!permitted || unsure, "refused", "permitted contract is refused: {e:?}");
                        ctx.outcome("contract-refused");
                        Ok(())
                    }
                    Ok(c) => {
                        ensure!(permitted, "issued", "contract violating the schema is issued");
                        ctx.outcome("contract");
                        let g = &c.genesis;
                        ensure!(g.testnet != m.mainnet, "network", "network differs");
                        ensure!(g.alt_layers1.contains(&AltLayer1::Liquid) == m.liquid, "layers", "layers differ");
                        ensure!(!self.base.det || g.timestamp == TS, "timestamp", "timestamp differs");
                        ensure!(g.schema_id == fx().alpha.schema_id(), "schema", "schema differs");
                        let tags: BTreeMap<_, _> = g.asset_tags.iter().map(|(k, v)| (*k, *v)).collect();
                        ensure!(tags.keys().eq(m.tags.keys()), "tags", "tags of {:?} instead of {:?}", tags.keys(), m.tags.keys());
                        for (k, v) in &m.tags {
                            ensure!(v.map(|v| v == tags[k]).unwrap_or(true), "tags", "tag of {k} differs");
                        }
                        self.common(&g.metadata, &g.globals, &g.assignments, &tags)
                    }
                }
            }
        }
    }
}

fn cid() -> ContractId { ContractId::copy_from_slice([0x44u8; 32]).expect("length") }

impl Space for P15 {
    type Root = Base;
    type S = S;
    type A = A;
    fn init(&self, base: &Base) -> R<S> {
        let x = fx();
        let (i, s, l, t) = (x.iface.clone(), x.alpha.clone(), x.aimpl.clone(), x.types.clone());
        let mut m = Model::default();
        let b = match base.kind {
            Kind::Contract(tagged) => {
                let scripts = amplify::confinement::Confined::from_iter_checked([&x.alib, &x.acore].map(|l| (l.id(), l.clone())));
                let mut b = if base.det {
                    ContractBuilder::deterministic(Identity::default(), i, s, l, t, scripts)
                } else {
                    ContractBuilder::with(Identity::default(), i, s, l, t, scripts)
                };
                if tagged {
                    b = b.add_asset_tag("asset", tag(1)).sut("tag")?.add_asset_tag("bonus", tag(2)).sut("tag")?;
                }
                if tagged {
                    b = b.add_global_state("spec", asset_spec(0)).sut("spec")?;
                    m.globals.insert(GS_SPEC, vec![bytes(&asset_spec(0))]);
                    m.tags = [(OS_ASSET, Some(tag(1))), (OS_BONUS, Some(tag(2)))].into();
                }
                B::C(b)
            }
            k => {
                let b = match (k, base.det) {
                    (Kind::Named(n), true) => TransitionBuilder::named_transition_det(cid(), i, s, l, n, t).sut("builder")?,
                    (Kind::Named(n), false) => TransitionBuilder::named_transition(cid(), i, s, l, n, t).sut("builder")?,
                    (Kind::Blank, true) => TransitionBuilder::blank_transition_det(cid(), i, s, l, t),
                    (Kind::Blank, false) => TransitionBuilder::blank_transition(cid(), i, s, l, t),
                    (_, true) => TransitionBuilder::default_transition_det(cid(), i, s, l, t).sut("builder")?,
                    (_, false) => TransitionBuilder::default_transition(cid(), i, s, l, t).sut("builder")?,
                };
                m.tags = [(OS_ASSET, Some(tag(1))), (OS_BONUS, Some(tag(2)))].into();
                B::T(b.add_asset_tag("asset", tag(1)).sut("tag")?.add_asset_tag_raw(OS_BONUS, tag(2)).sut("tag")?)
            }
        };
        Ok(S { base: *base, b, m, n: 0 })
    }
    fn fork(&self, s: &S) -> S { S { base: s.base, b: s.b.clone(), m: s.m.clone(), n: s.n } }
    fn actions(&self, s: &S, _: usize) -> Vec<A> {
        let contract = matches!(s.base.kind, Kind::Contract(_));
        let mut v = vec![
            A::Meta(0),
            A::Meta(1),
            A::Global(0),
            A::Global(1),
            A::Right("right", 0),
            A::Right("right", 2),
            A::Amount("asset", 0, 5),
            A::Amount("asset", 0, 7),
            A::Amount("asset", 2, 7),
            A::Amount("bonus", 1, 5),
            A::Data("token", 0, 0),
            A::Data("token", 2, 0),
            A::Doc("doc", 0),
            A::Doc("doc", 3),
        ];
        if !self.short {
            v.extend([
                A::Right("right", 3),
                A::Right("asset", 0),
                A::Right("nothing", 0),
                A::Amount("asset", 3, 5),
                A::Amount("right", 0, 5),
                A::Amount("nothing", 0, 5),
                A::Data("token", 0, 1),
                A::Data("token", 0, 2),
                A::Data("asset", 0, 0),
                A::Data("nothing", 0, 0),
                A::Doc("token", 0),
                A::Doc("nothing", 0),
                A::Meta(2),
                A::Meta(3),
                A::Global(3),
                A::Global(4),
                A::Tag("asset", 3),
                A::Tag("nothing", 3),
            ]);
        }
        if contract {
            v.push(A::Global(2));
            v.extend([A::Right("right", 4), A::Amount("asset", 4, 5), A::Layer]);
            if !self.short {
                v.extend([A::Data("token", 4, 0), A::Mainnet]);
            }
            if s.m.liquid {
                v.retain(|a| *a != A::Layer);
            }
        } else {
            v.extend((0..4).map(A::Input));
            v.push(A::Raw(1000, 0, 1));
            if !self.short {
                v.extend((4..9).map(A::Input));
                v.extend([A::Default(1, 7), A::Default(2, 5), A::Nonce(5)]);
                v.extend([
                    A::Raw(1002, 0, 0),
                    A::Raw(1003, 2, 3),
                    A::Raw(1004, 2, 4),
                    A::Raw(1000, 0, 0),
                    A::Raw(1000, 0, 2),
                    A::Raw(1000, 0, 3),
                    A::Raw(1003, 0, 5),
                    A::Raw(1999, 0, 0),
                    A::Raw(1999, 0, 1),
                    A::Raw(1999, 0, 3),
                    A::Raw(1999, 0, 4),
                ]);
            }
        }
        v
    }
    fn step(&self, ctx: &Ctx, s: &mut S, a: &A) -> R {
        let want = s.expect(a);
        let got = guard("", || Ok(s.call(a)))?;
        match (want, got) {
            (None, Err(_)) => {
                ctx.outcome("refused");
                return Ok(());
            }
            (None, Ok(_)) => fail!("accepted", "a call which is not permitted is accepted"),
            (Some(_), Err(e)) => fail!("refused", "a permitted call is refused: {e:?}"),
            (Some(m), Ok(b)) => {
                s.m = m;
                s.b = b;
                s.n += 1;
                ctx.outcome("accepted");
            }
        }
        s.complete(ctx)
    }
    fn canon(&self, s: &S) -> String {
        let m = &s.m;
        format!("{}{:?}{:?}{:?}{:?}{:?}{}{}{:?}", s.base, m.meta, m.globals, m.inputs.keys(), m.outs, m.tags, m.liquid, m.mainnet, m.nonce)
    }
}

pub fn check(ctx: &Ctx) -> i32 {
    let mut kinds = vec![];
    for det in [true, false] {
        for kind in [Kind::Named("move"), Kind::Named("annotate"), Kind::Blank, Kind::Default] {
            kinds.push(Base { kind, det });
        }
    }
    let contracts: Vec<Base> =
        [true, false].into_iter().flat_map(|t| [true, false].map(|det| Base { kind: Kind::Contract(t), det })).collect();
    let all = [kinds.clone(), contracts.clone()].concat();
    explore(ctx, &P15 { short: false }, &all, 2);
    if ctx.thorough {
        explore(ctx, &P15 { short: false }, &[kinds[1], contracts[0]], 3);
        explore(ctx, &P15 { short: true }, &[kinds[0], contracts[0]], 4);
    } else {
        explore(ctx, &P15 { short: true }, &[kinds[1], kinds[7], contracts[0], contracts[3]], 3);
    }
    ctx.finish(
        "model_checking",
        "all sequences of calls, valid and invalid, to builders of contracts and of named, default and blank transitions up to the depth; the operation is completed after every call and compared with a list of what was accepted",
        &["a schema with state of every kind; amounts, seals and values from small sets", "contracts with attachments are not expected to validate: the consensus layer in use never accepts disclosed attachments"],
    )
}
