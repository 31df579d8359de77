//! Reference ledger: the set of operations a stock was given, kept as plain
//! lists and evaluated by brute force.

use std::collections::{BTreeMap, BTreeSet};

use amplify::Wrapper;
use bp::seals::txout::TxPtr;
use bp::seals::SecretSeal;
use bp::{Outpoint, Txid, Vout};
use bp::dbc::Method;
use commit_verify::Conceal;
use rgbstd::containers::{Consignment, ConsignmentExt, Fascia, ToWitnessId};
use rgbstd::vm::WitnessOrd;
use rgbstd::*;

use super::world::{mtag, xw, Chain};

/// Seal with an output, which may be of the witness transaction.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct LSeal {
    pub method: u8,
    pub txid: Option<Txid>,
    pub vout: Vout,
}

impl LSeal {
    pub fn at(&self, witness: Option<Txid>) -> Outpoint {
        Outpoint::new(self.txid.or(witness).expect("witness seal without witness"), self.vout)
    }
}

pub trait PlainSeal: Copy {
    fn plain(self) -> LSeal;
}
impl PlainSeal for GenesisSeal {
    fn plain(self) -> LSeal { LSeal { method: self.method as u8, txid: Some(self.txid), vout: self.vout } }
}
impl PlainSeal for GraphSeal {
    fn plain(self) -> LSeal {
        LSeal {
            method: self.method as u8,
            txid: match self.txid {
                TxPtr::WitnessTx => None,
                TxPtr::Txid(t) => Some(t),
            },
            vout: self.vout,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct LOp {
    pub contract: ContractId,
    pub genesis: bool,
    /// Known outputs: seal and printed value.
    pub outs: BTreeMap<(u16, u16), (LSeal, String)>,
    /// Global values with everything their order depends on.
    pub globals: Vec<(u16, u16, Vec<u8>)>,
    pub nonce: u64,
    pub ty: Option<TransitionType>,
    pub inputs: BTreeSet<(OpId, u16, u16)>,
}

#[derive(Clone, Default, Debug)]
pub struct Ledger {
    pub ops: BTreeMap<OpId, LOp>,
    pub wit: BTreeMap<OpId, BTreeSet<Txid>>,
    pub ords: BTreeMap<Txid, WitnessOrd>,
    pub secrets: BTreeMap<SecretSeal, GraphSeal>,
}

pub fn short(x: impl ToString) -> String {
    let s = x.to_string();
    let s = s.strip_prefix("rgb:").unwrap_or(&s);
    s.chars().take(12).collect()
}

pub fn amount_line(v: &RevealedValue) -> String {
    use amplify::hex::ToHex;
    format!("{}/{}/{}", v.value.as_u64(), v.blinding, v.tag.to_hex())
}
pub fn data_line(v: &RevealedData) -> String {
    use amplify::hex::ToHex;
    format!("{}/{}", AsRef::<[u8]>::as_ref(&v.value).to_hex(), v.salt)
}
pub fn attach_line(v: &RevealedAttach) -> String { format!("{}/{}/{}", v.file.id, v.file.media_type, v.salt) }

pub fn line(contract: ContractId, opid: OpId, ty: u16, no: u16, method: u8, at: Outpoint, val: &str) -> String {
    let m = if method == 0 { mtag(Method::OpretFirst) } else { mtag(Method::TapretFirst) };
    format!("{} {opid}/{ty}/{no} {m}:{at} {val}", short(contract))
}

fn unchain<T>(x: XChain<T>) -> T {
    match x {
        XChain::Bitcoin(t) => t,
        _ => panic!("only bitcoin is used"),
    }
}

/// Reads the outputs of an operation, resolving concealed seals by `secrets`.
fn outs<S: ExposedSeal + PlainSeal>(
    a: &Assignments<S>,
    secret: impl Fn(SecretSeal) -> Option<GraphSeal>,
) -> BTreeMap<(u16, u16), (LSeal, String)> {
    fn one<St: ExposedState, S: ExposedSeal + PlainSeal>(
        a: &Assign<St, S>,
        secret: &impl Fn(SecretSeal) -> Option<GraphSeal>,
        show: impl Fn(&St) -> String,
    ) -> Option<(LSeal, String)> {
        let (seal, state) = match a {
            Assign::Revealed { seal, state, .. } => (unchain(*seal).plain(), state),
            Assign::ConfidentialSeal { seal, state, .. } => (secret(unchain(*seal))?.plain(), state),
            _ => return None,
        };
        Some((seal, show(state)))
    }
    let mut res = BTreeMap::new();
    for (ty, ta) in a.iter() {
        let ty = ty.to_inner();
        let v: Vec<Option<(LSeal, String)>> = match ta {
            TypedAssigns::Declarative(l) => l.iter().map(|a| one(a, &secret, |_| "right".into())).collect(),
            TypedAssigns::Fungible(l) => l.iter().map(|a| one(a, &secret, amount_line)).collect(),
            TypedAssigns::Structured(l) => l.iter().map(|a| one(a, &secret, data_line)).collect(),
            TypedAssigns::Attachment(l) => l.iter().map(|a| one(a, &secret, attach_line)).collect(),
        };
        for (no, x) in v.into_iter().enumerate() {
            if let Some(x) = x {
                res.insert((ty, no as u16), x);
            }
        }
    }
    res
}

fn globals(g: &GlobalState) -> Vec<(u16, u16, Vec<u8>)> {
    g.iter()
        .flat_map(|(ty, vals)| {
            vals.iter()
                .enumerate()
                .map(|(i, v)| (ty.to_inner(), i as u16, AsRef::<[u8]>::as_ref(v).to_vec()))
                .collect::<Vec<_>>()
        })
        .collect()
}

impl Ledger {
    pub fn secret(&mut self, seal: XChain<GraphSeal>) {
        self.secrets.insert(unchain(seal.conceal()), unchain(seal));
    }

    fn add(&mut self, opid: OpId, op: LOp) {
        match self.ops.get_mut(&opid) {
            None => {
                self.ops.insert(opid, op);
            }
            Some(o) => o.outs.extend(op.outs),
        }
    }

    fn transition(&mut self, t: &Transition, txid: Txid, ord: WitnessOrd, terminals: &BTreeSet<SecretSeal>) {
        let opid = t.id();
        let secrets = self.secrets.clone();
        let op = LOp {
            contract: t.contract_id,
            genesis: false,
            outs: outs(&t.assignments, |s| {
                if terminals.contains(&s) { secrets.get(&s).copied() } else { None }
            }),
            globals: globals(&t.globals),
            nonce: t.nonce,
            ty: Some(t.transition_type),
            inputs: t.inputs.iter().map(|i| (i.prev_out.op, i.prev_out.ty.to_inner(), i.prev_out.no)).collect(),
        };
        self.add(opid, op);
        self.wit.entry(opid).or_default().insert(txid);
        self.ords.insert(txid, ord);
    }

    pub fn fascia(&mut self, f: &Fascia, chain: &Chain) {
        let txid = unchain(f.witness.to_witness_id());
        for b in f.bundles.values() {
            for b in b.iter() {
                for t in b.known_transitions.values() {
                    self.transition(t, txid, chain.ord[&txid], &BTreeSet::new());
                }
            }
        }
    }

    pub fn consignment<const T: bool>(&mut self, c: &Consignment<T>, chain: &Chain) {
        let g = &c.genesis;
        let opid = g.id();
        let op = LOp {
            contract: c.contract_id(),
            genesis: true,
            outs: outs(&g.assignments, |_| None),
            globals: globals(&g.globals),
            nonce: u64::MAX,
            ty: None,
            inputs: BTreeSet::new(),
        };
        self.add(opid, op);
        let mut t: Vec<(BundleId, SecretSeal)> = vec![];
        for (b, s) in &c.terminals {
            t.push((*b, unchain(*s)));
        }
        for wb in &c.bundles {
            let txid = unchain(wb.pub_witness.to_witness_id());
            for b in wb.anchored_bundles.bundles() {
                let id = b.bundle_id();
                let term: BTreeSet<SecretSeal> = t.iter().filter(|(b, _)| *b == id).map(|(_, s)| *s).collect();
                for tr in b.known_transitions.values() {
                    self.transition(tr, txid, chain.ord[&txid], &term);
                }
            }
        }
    }

    /// Result of a status update over the chain.
    pub fn refresh(&mut self, chain: &Chain, after: u32) {
        for (txid, ord) in &mut self.ords {
            if matches!(ord, WitnessOrd::Mined(pos) if pos.height().get() < after.max(1)) {
                continue;
            }
            if chain.failing.contains(txid) {
                continue;
            }
            if let Some(o) = chain.ord.get(txid) {
                *ord = *o;
            }
        }
    }

    fn live(&self, opid: &OpId) -> Vec<Option<Txid>> {
        if self.ops[opid].genesis {
            return vec![None];
        }
        self.wit
            .get(opid)
            .into_iter()
            .flatten()
            .filter(|t| self.ords[*t] != WitnessOrd::Archived)
            .map(|t| Some(*t))
            .collect()
    }

    /// All visible owned state: (contract, opid, type, no, method, outpoint, value).
    pub fn visible(&self) -> BTreeSet<(ContractId, OpId, u16, u16, u8, Outpoint, String)> {
        let mut res = BTreeSet::new();
        for (opid, op) in &self.ops {
            for w in self.live(opid) {
                for ((ty, no), (seal, val)) in &op.outs {
                    res.insert((op.contract, *opid, *ty, *no, seal.method, seal.at(w), val.clone()));
                }
            }
        }
        res
    }

    pub fn lines(&self) -> Vec<String> {
        let mut v: Vec<String> =
            self.visible().iter().map(|(c, o, t, n, m, at, val)| line(*c, *o, *t, *n, *m, *at, val)).collect();
        v.sort();
        v
    }

    /// Visible global values of a type in consensus order; of more than the
    /// limit, the most recent ones.
    pub fn globals(&self, contract: ContractId, ty: GlobalStateType, limit: usize) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for (opid, op) in &self.ops {
            if op.contract != contract {
                continue;
            }
            for (t, no, val) in &op.globals {
                if *t != ty.to_inner() {
                    continue;
                }
                if op.genesis {
                    v.push((rgbstd::vm::GlobalOrd::genesis(*no), val.clone()));
                    continue;
                }
                // the operation counts once, with its strongest witness
                if let Some(ord) = self.live(opid).into_iter().map(|t| self.ords[&t.unwrap()]).min() {
                    v.push((
                        rgbstd::vm::GlobalOrd::transition(*opid, *no, op.ty.unwrap(), op.nonce, ord),
                        val.clone(),
                    ));
                }
            }
        }
        v.sort();
        let old = v.len().saturating_sub(limit);
        v.into_iter().skip(old).map(|x| x.1).collect()
    }

    pub fn is_valid(&self, txid: Txid) -> bool { self.ords.get(&txid).map(|o| *o != WitnessOrd::Archived).unwrap_or(false) }
    pub fn xid(txid: Txid) -> XWitnessId { xw(txid) }
}
