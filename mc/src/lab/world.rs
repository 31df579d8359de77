//! Mock chain, witness transactions and wallets.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU32;

use amplify::confinement::{Confined, NonEmptyOrdMap};
use amplify::Wrapper;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::{TapretPathProof, TapretProof};
use bp::dbc::{Anchor, Method};
use bp::seals::SecretSeal;
use bp::{
    InternalPk, LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, TxVer, Txid,
    VarIntArray, Vout,
};
use commit_verify::mpc::{self, MerkleBlock, MerkleTree, MultiSource};
use commit_verify::{Conceal, CommitId, ConvolveCommit, TryCommitVerify};
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::{
    AnchorSet, Batch, BundleDichotomy, ConsignmentExt, Fascia, PubWitness, Transfer, ValidContract, ValidTransfer,
};
use rgbstd::invoice::{Beneficiary, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet};
use rgbstd::persistence::Stock;
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, WitnessPos, XWitnessTx};
use rgbstd::*;

use super::fixture::*;
use super::ledger::Ledger;
use crate::core::{Sut, R};

pub type M = Method;
pub const OP: Method = Method::OpretFirst;
pub const TAP: Method = Method::TapretFirst;

pub fn mtag(m: Method) -> &'static str {
    match m {
        Method::OpretFirst => "o",
        Method::TapretFirst => "t",
    }
}

pub fn xw(txid: Txid) -> XWitnessId { XChain::Bitcoin(txid) }
pub fn xo(o: Outpoint) -> XOutpoint { XOutpoint::from(XChain::Bitcoin(o)) }
pub fn oseal(m: Method, o: Outpoint) -> XOutputSeal { XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(m, o)) }
pub fn gseal(m: Method, o: Outpoint, blinding: u64) -> XChain<GenesisSeal> {
    XChain::Bitcoin(GenesisSeal::with_blinding(m, o.txid, o.vout, blinding))
}
pub fn bseal(m: Method, o: Outpoint, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinding(m, o.txid, o.vout, blinding))
}
pub fn vseal(m: Method, vout: u32, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinded_vout(m, Vout::from_u32(vout), blinding))
}

pub fn mined(height: u32) -> WitnessOrd {
    WitnessOrd::Mined(
        WitnessPos::bitcoin(NonZeroU32::new(height).unwrap(), 1_600_000_000 + height as i64).unwrap(),
    )
}

/// The chain backend: a table of transactions and of their statuses, able to
/// fail on demand.
#[derive(Clone, Default)]
pub struct Chain {
    pub txs: BTreeMap<Txid, Tx>,
    pub ord: BTreeMap<Txid, WitnessOrd>,
    /// Witnesses for which status queries fail.
    pub failing: BTreeSet<Txid>,
    /// Calls made so far, and the call which has to fail.
    pub calls: Cell<usize>,
    pub fail_at: Cell<Option<usize>>,
    pub log: RefCell<Vec<Txid>>,
}

impl Chain {
    pub fn put(&mut self, tx: Tx, ord: WitnessOrd) -> Txid {
        let id = tx.txid();
        self.txs.insert(id, tx);
        self.ord.insert(id, ord);
        id
    }
    fn tick(&self, id: XWitnessId) -> Result<Txid, WitnessResolverError> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at.get() == Some(n) {
            return Err(WitnessResolverError::Other(id, "injected failure".into()));
        }
        match id {
            XChain::Bitcoin(txid) => Ok(txid),
            _ => Err(WitnessResolverError::Unknown(id)),
        }
    }
}

impl ResolveWitness for Chain {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        let txid = self.tick(id)?;
        self.txs.get(&txid).cloned().map(XChain::Bitcoin).ok_or(WitnessResolverError::Unknown(id))
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        let txid = self.tick(id)?;
        self.log.borrow_mut().push(txid);
        if self.failing.contains(&txid) {
            return Err(WitnessResolverError::Other(id, "backend failure".into()));
        }
        self.ord.get(&txid).copied().ok_or(WitnessResolverError::Unknown(id))
    }
}

/// One operation to be committed by a transaction.
#[derive(Clone, Debug)]
pub struct Op {
    pub contract: ContractId,
    pub method: Method,
    pub transition: Transition,
    pub inputs: BTreeSet<Outpoint>,
}

fn ipk() -> InternalPk {
    // generator point
    let g: [u8; 32] = [
        0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b,
        0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8,
        0x17, 0x98,
    ];
    InternalPk::from_byte_array(g).expect("generator")
}

pub fn bundles_of(ops: &[Op], ins: &[Outpoint]) -> R<BTreeMap<(ContractId, u8), TransitionBundle>> {
    let mut by: BTreeMap<(ContractId, u8), (Method, BTreeMap<_, _>, BTreeMap<_, _>)> = BTreeMap::new();
    for op in ops {
        let e = by
            .entry((op.contract, op.method as u8))
            .or_insert_with(|| (op.method, BTreeMap::new(), BTreeMap::new()));
        let opid = op.transition.id();
        for o in &op.inputs {
            let vin = ins.iter().position(|i| i == o).expect("input present") as u32;
            e.1.insert(Vout::from_u32(vin), opid);
        }
        e.2.insert(opid, op.transition.clone());
    }
    by.into_iter()
        .map(|(k, (method, map, known))| {
            Ok((k, TransitionBundle {
                close_method: method,
                input_map: InputMap::from_inner(Confined::try_from(map).sut("input map")?),
                known_transitions: Confined::try_from(known).sut("transitions")?,
            }))
        })
        .collect()
}

/// Builds the witness transaction committing to all operations, as a wallet
/// does. Different `tweak`s give different transactions for the same
/// operations.
pub fn witness(ops: &[Op], tweak: u32) -> R<(Tx, Fascia)> {
    let ins: Vec<Outpoint> =
        ops.iter().flat_map(|o| o.inputs.iter().copied()).collect::<BTreeSet<_>>().into_iter().collect();
    let bundles = bundles_of(ops, &ins)?;
    let tree = |m: Method| -> R<Option<MerkleTree>> {
        let mut src = MultiSource::with_static_entropy(tweak as u64 + 11);
        let mut any = false;
        for ((cid, mm), b) in &bundles {
            if *mm == m as u8 {
                any = true;
                src.messages
                    .insert(mpc::ProtocolId::from(*cid), mpc::Message::from(b.bundle_id()))
                    .sut("mpc")?;
            }
        }
        if !any {
            return Ok(None);
        }
        Ok(Some(MerkleTree::try_commit(&src).sut("mpc commit")?))
    };
    let (opret, tapret) = (tree(OP)?, tree(TAP)?);
    let wpkh = |n: u8| ScriptPubkey::p2wpkh([n; 20]);
    let out0 = match &opret {
        Some(t) => ScriptPubkey::op_return(t.commit_id().as_slice()),
        None => wpkh(1),
    };
    let mut tx = Tx {
        version: TxVer::V2,
        inputs: VarIntArray::from_iter_checked(ins.iter().map(|o| TxIn {
            prev_output: *o,
            sig_script: Default::default(),
            sequence: SeqNo::from_consensus_u32(0),
            witness: Default::default(),
        })),
        outputs: VarIntArray::from_iter_checked([
            TxOut::new(out0, Sats::ZERO),
            TxOut::new(ScriptPubkey::p2tr_key_only(ipk()), Sats::from(1000u64)),
            TxOut::new(wpkh(2), Sats::from(1000u64)),
            TxOut::new(wpkh(3), Sats::from(1000u64)),
        ]),
        lock_time: LockTime::from_consensus_u32(tweak),
    };
    let opret = opret.map(|t| Anchor::new(MerkleBlock::from(t), OpretProof::default()));
    let tapret = match tapret {
        Some(t) => {
            let proof = TapretProof { path_proof: TapretPathProof::root(0), internal_pk: ipk() };
            let (tx2, proof) = tx.convolve_commit(&proof, &t.commit_id()).sut("tapret")?;
            tx = tx2;
            Some(Anchor::new(MerkleBlock::from(t), proof))
        }
        None => None,
    };
    let anchor = match (tapret, opret) {
        (Some(tapret), Some(opret)) => AnchorSet::Double { tapret, opret },
        (Some(t), None) => AnchorSet::Tapret(t),
        (None, Some(o)) => AnchorSet::Opret(o),
        (None, None) => panic!("no operations"),
    };
    let mut by: BTreeMap<ContractId, Vec<TransitionBundle>> = BTreeMap::new();
    for ((cid, _), b) in bundles {
        by.entry(cid).or_default().push(b);
    }
    let by: BTreeMap<ContractId, BundleDichotomy> =
        by.into_iter().map(|(c, v)| (c, BundleDichotomy::from_iter(v))).collect();
    let fascia = Fascia {
        witness: XChain::Bitcoin(PubWitness::Tx(tx.clone())),
        anchor,
        bundles: NonEmptyOrdMap::try_from(by).sut("bundles")?,
    };
    Ok((tx, fascia))
}

pub fn batch_ops(batch: Batch) -> Vec<Op> {
    batch
        .into_iter()
        .map(|info| Op {
            contract: info.transition.contract_id,
            method: info.method,
            inputs: info
                .inputs
                .iter()
                .map(|o| match o.into_inner() {
                    XChain::Bitcoin(o) => o,
                    _ => panic!("not bitcoin"),
                })
                .collect(),
            transition: info.transition,
        })
        .collect()
}

/// How the payee wants to be paid.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Ben {
    /// Blinded seal over an output of the payee.
    Blind(Method),
    /// Output of the witness transaction.
    Vout(Method),
}

pub fn ben_tag(b: Ben) -> String {
    match b {
        Ben::Blind(m) => format!("b{}", mtag(m)),
        Ben::Vout(m) => format!("v{}", mtag(m)),
    }
}

pub fn make_invoice(contract: ContractId, ben: Beneficiary, val: &Val) -> RgbInvoice {
    let b = RgbInvoiceBuilder::with(contract, XChainNet::BitcoinRegtest(ben)).set_interface("LabAsset");
    match val {
        Val::Asset(v) => b.set_amount_raw(*v).finish(),
        Val::Bonus(v) => b.set_operation("move").set_assignment("bonus").set_amount_raw(*v).finish(),
        Val::Token(i, fr) => b
            .set_operation("move")
            .set_assignment("token")
            .set_allocation_raw(Allocation::with(*i, *fr))
            .finish(),
        Val::Right | Val::Doc(_) => b.set_operation("move").set_assignment(val.name()).finish(),
    }
}

pub fn vout_ben(m: Method) -> Beneficiary {
    Beneficiary::WitnessVout(Pay2Vout {
        method: m,
        address: invoice::AddressPayload::from_script(&ScriptPubkey::p2wpkh([2; 20])).expect("address"),
    })
}

pub struct Wallet {
    pub stock: Stock,
    pub ledger: Ledger,
    /// Outputs controlled by the wallet.
    pub coins: BTreeSet<Outpoint>,
}

impl Clone for Wallet {
    fn clone(&self) -> Self {
        Wallet {
            stock: self.stock.clone_no_persistence(),
            ledger: self.ledger.clone(),
            coins: self.coins.clone(),
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub chain: Chain,
    pub wallets: Vec<Wallet>,
    pub contracts: Vec<ContractId>,
    counter: u64,
}

#[derive(Clone)]
pub struct Payment {
    pub from: usize,
    pub tx: Tx,
    pub fascia: Fascia,
    pub ops: Vec<Op>,
    pub secret: Option<XChain<SecretSeal>>,
    /// Outputs at which the payee receives (for witness-output payments).
    pub outputs: Vec<XOutputSeal>,
}

pub fn fresh_stock() -> R<Stock> {
    let mut stock = Stock::in_memory();
    let kit = full_kit().validate().map_err(|(s, _)| s).sut("kit validate")?;
    stock.import_kit(kit).sut("import_kit")?;
    Ok(stock)
}

pub fn fund_txid(n: u64) -> Txid {
    let mut b = [0xF0u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    Txid::from(b)
}

pub fn bitcoin(o: XOutpoint) -> Outpoint {
    match o.into_inner() {
        XChain::Bitcoin(o) => o,
        _ => panic!("not bitcoin"),
    }
}

impl World {
    pub fn new(wallets: usize) -> R<World> {
        let mut w = World { chain: Chain::default(), wallets: vec![], contracts: vec![], counter: 0 };
        for _ in 0..wallets {
            w.wallets.push(Wallet {
                stock: fresh_stock()?,
                ledger: Ledger::default(),
                coins: BTreeSet::new(),
            });
        }
        Ok(w)
    }

    pub fn next(&mut self) -> u64 {
        self.counter += 1;
        self.counter
    }

    /// A fresh output controlled by the wallet.
    pub fn fund(&mut self, w: usize) -> Outpoint {
        let n = self.next();
        let o = Outpoint::new(fund_txid(n), Vout::from_u32((n % 3) as u32));
        self.wallets[w].coins.insert(o);
        o
    }

    pub fn issue(&mut self, w: usize, sch: Sch, notes: &[u64], alloc: &[(Outpoint, Method, Val)]) -> R<ContractId> {
        let salt = self.contracts.len() as u64;
        let alloc: Vec<_> = alloc
            .iter()
            .enumerate()
            .map(|(i, (o, m, v))| (gseal(*m, *o, 500 + i as u64), v.clone()))
            .collect();
        let contract = issue(sch, salt, notes, &alloc)?;
        let id = contract.contract_id();
        self.contracts.push(id);
        self.import(w, contract)?;
        Ok(id)
    }

    pub fn import(&mut self, w: usize, contract: ValidContract) -> R {
        self.wallets[w].ledger.consignment(&contract, &self.chain);
        self.wallets[w].stock.import_contract(contract, &self.chain).sut("import_contract")?;
        Ok(())
    }

    /// Invoice of wallet `to`; for blinded beneficiaries the seal is stored.
    pub fn invoice(&mut self, to: usize, contract: ContractId, ben: Ben, val: &Val) -> R<(RgbInvoice, Option<XChain<GraphSeal>>)> {
        match ben {
            Ben::Blind(m) => {
                let o = self.fund(to);
                let n = self.next();
                let seal = bseal(m, o, 9000 + n);
                self.wallets[to].stock.store_secret_seal(seal).sut("store_secret_seal")?;
                self.wallets[to].ledger.secret(seal);
                let secret = match seal.conceal() {
                    XChain::Bitcoin(s) => s,
                    _ => panic!(),
                };
                Ok((make_invoice(contract, Beneficiary::BlindedSeal(secret), val), Some(seal)))
            }
            Ben::Vout(m) => Ok((make_invoice(contract, vout_ben(m), val), None)),
        }
    }

    pub fn compose(&mut self, from: usize, inv: &RgbInvoice, coins: &[Outpoint], method: Method, ben: Ben) -> R<Batch> {
        let n = self.next();
        let cell = Cell::new(n * 1000);
        let seq = || {
            cell.set(cell.get() + 1);
            cell.get()
        };
        // outputs to be spent are named with either closing method; lookups are by outpoint
        let prev: Vec<XOutputSeal> = coins.iter().map(|o| oseal(OP, *o)).collect();
        self.wallets[from]
            .stock
            .compose_deterministic(
                inv,
                prev,
                method,
                match ben {
                    Ben::Blind(_) => None,
                    Ben::Vout(_) => Some(Vout::from_u32(2)),
                },
                n,
                |_, _, _| Some(Vout::from_u32(1)),
                |_, _| blinding(seq()),
                |_, _| seq(),
            )
            .sut("compose")
    }

    /// Commits operations by a transaction, which becomes tentative, and lets
    /// the payer take it.
    pub fn broadcast(&mut self, from: usize, ops: &[Op], tweak: u32, ord: WitnessOrd) -> R<(Tx, Fascia)> {
        let (tx, fascia) = witness(ops, tweak)?;
        self.chain.put(tx.clone(), ord);
        self.consume(from, &fascia)?;
        Ok((tx, fascia))
    }

    pub fn consume(&mut self, w: usize, fascia: &Fascia) -> R {
        self.wallets[w].ledger.fascia(fascia, &self.chain);
        self.wallets[w].stock.consume_fascia(fascia.clone(), &self.chain).sut("consume_fascia")
    }

    /// The whole payment up to the payer's side.
    pub fn pay(
        &mut self,
        from: usize,
        to: usize,
        contract: ContractId,
        val: &Val,
        coins: &[Outpoint],
        method: Method,
        ben: Ben,
    ) -> R<Payment> {
        self.pay_with(from, to, contract, val, coins, method, ben, Ok)
    }

    /// Payment whose composed batch is inspected or changed before signing.
    #[allow(clippy::too_many_arguments)]
    pub fn pay_with(
        &mut self,
        from: usize,
        to: usize,
        contract: ContractId,
        val: &Val,
        coins: &[Outpoint],
        method: Method,
        ben: Ben,
        adjust: impl FnOnce(Batch) -> R<Batch>,
    ) -> R<Payment> {
        let (inv, seal) = self.invoice(to, contract, ben, val)?;
        let batch = self.compose(from, &inv, coins, method, ben)?;
        let batch = adjust(batch)?;
        let ops = batch_ops(batch);
        let (tx, fascia) = self.broadcast(from, &ops, 0, WitnessOrd::Tentative)?;
        let txid = tx.txid();
        for c in coins {
            self.wallets[from].coins.remove(c);
        }
        self.wallets[from].coins.insert(Outpoint::new(txid, Vout::from_u32(1)));
        let mut outputs = vec![];
        if let Ben::Vout(m) = ben {
            let o = Outpoint::new(txid, Vout::from_u32(2));
            self.wallets[to].coins.insert(o);
            outputs.push(oseal(m, o));
        }
        Ok(Payment { from, tx, fascia, ops, secret: seal.map(|s| s.conceal()), outputs })
    }

    pub fn transfer(&self, w: usize, contract: ContractId, outputs: &[XOutputSeal], secret: Option<XChain<SecretSeal>>) -> R<Transfer> {
        self.wallets[w].stock.transfer(contract, outputs, secret).sut("transfer")
    }

    pub fn accept(&mut self, w: usize, transfer: Transfer) -> R {
        let valid = self.validate(transfer)?;
        self.wallets[w].ledger.consignment(&valid, &self.chain);
        self.wallets[w].stock.accept_transfer(valid, &self.chain).sut("accept_transfer")?;
        Ok(())
    }

    pub fn validate(&self, transfer: Transfer) -> R<ValidTransfer> {
        transfer.validate(&self.chain, true).map_err(|(s, _)| s).sut("validate transfer")
    }

    /// Payment including delivery to the payee.
    pub fn pay_deliver(
        &mut self,
        from: usize,
        to: usize,
        contract: ContractId,
        val: &Val,
        coins: &[Outpoint],
        method: Method,
        ben: Ben,
    ) -> R<Payment> {
        let p = self.pay(from, to, contract, val, coins, method, ben)?;
        let t = self.transfer(from, contract, &p.outputs, p.secret)?;
        self.accept(to, t)?;
        Ok(p)
    }
}
