//! Histories: roots (issued contracts) and actions (payments, deliveries,
//! status changes) shared by the checks exploring stocks.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use amplify::confinement::Confined;
use bp::dbc::Method;
use bp::{Outpoint, Vout};
use commit_verify::Conceal;
use rgbstd::containers::Batch;
use rgbstd::containers::BuilderSeal;
use rgbstd::persistence::PersistedState;
use rgbstd::vm::WitnessOrd;
use rgbstd::*;

use super::*;
use crate::core::{Sut, R};

/// Initial allocation of contracts.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Root {
    /// One contract, one coin.
    One(Method),
    /// One contract, two coins closed by different methods.
    TwoMethods,
    /// One contract with state of every kind on one coin and more of the asset
    /// on another.
    Kinds,
    /// Two contracts (of two schemata) sharing a coin, plus one coin each.
    Shared,
    /// One outpoint holds seals of both methods for the same contract.
    Twin,
    /// Many coins of one contract.
    Many,
    /// Attachments, created by a transition; the consensus layer in use never
    /// validates disclosed attachments, so the state can't be passed on.
    Docs,
}

impl Display for Root {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Root::One(m) => write!(f, "one-{}", mtag(*m)),
            x => write!(f, "{}", format!("{x:?}").to_lowercase()),
        }
    }
}

impl Root {
    pub fn build(&self, wallets: usize) -> R<World> {
        let mut w = World::new(wallets)?;
        let a = w.fund(0);
        match self {
            Root::One(m) => {
                w.issue(0, Sch::Alpha, &[1], &[(a, *m, Val::Asset(100))])?;
            }
            Root::TwoMethods => {
                let b = w.fund(0);
                w.issue(0, Sch::Alpha, &[1], &[(a, OP, Val::Asset(60)), (b, TAP, Val::Asset(40))])?;
            }
            Root::Kinds => {
                let b = w.fund(0);
                w.issue(0, Sch::Alpha, &[1, 2], &[
                    (a, OP, Val::Asset(60)),
                    (a, OP, Val::Right),
                    (a, OP, Val::Token(1, 5)),
                    (a, OP, Val::Bonus(7)),
                    (b, OP, Val::Asset(40)),
                ])?;
            }
            Root::Shared => {
                let b = w.fund(0);
                let c = w.fund(0);
                w.issue(0, Sch::Alpha, &[1], &[(a, OP, Val::Asset(60)), (b, OP, Val::Asset(40))])?;
                w.issue(0, Sch::Beta, &[], &[(a, OP, Val::Asset(10)), (c, TAP, Val::Asset(20)), (a, TAP, Val::Right)])?;
            }
            Root::Twin => {
                w.issue(0, Sch::Alpha, &[1], &[(a, OP, Val::Asset(60)), (a, TAP, Val::Asset(40)), (a, TAP, Val::Right)])?;
            }
            Root::Many => {
                let b = w.fund(0);
                let c = w.fund(0);
                w.issue(0, Sch::Alpha, &[1], &[
                    (a, OP, Val::Asset(10)),
                    (b, OP, Val::Asset(20)),
                    (c, OP, Val::Asset(30)),
                    (b, OP, Val::Token(1, 1)),
                    (c, OP, Val::Token(2, 1)),
                ])?;
            }
            Root::Docs => {
                let cid = w.issue(0, Sch::Alpha, &[1], &[(a, OP, Val::Asset(60)), (a, OP, Val::Right)])?;
                let mut h = Hist::with(w);
                let found = h.w.wallets[0].stock.contract_assignments_for(cid, [xo(a)]).sut("assignments")?;
                let mut b = h.w.wallets[0]
                    .stock
                    .transition_builder(cid, "LabAsset", Some("move"))
                    .sut("transition_builder")?;
                for (_, list) in found {
                    let mut list: Vec<_> = list.into_iter().collect();
                    list.sort_by_key(|x| x.0);
                    for (opout, state) in list {
                        b = b.add_input(opout, state.clone()).sut("add_input")?;
                        b = b.add_owned_state_raw(opout.ty, vseal(OP, 1, 5), state).sut("add_owned_state_raw")?;
                    }
                }
                for (vout, n) in [(1, 1), (3, 2)] {
                    let st = rgbstd::persistence::PersistedState::Attachment(doc_state(n), 77 + n as u64);
                    b = b.add_owned_state_raw(OS_DOC, vseal(OP, vout, 6), st).sut("add attachment")?;
                }
                let op = Op {
                    contract: cid,
                    method: OP,
                    inputs: [a].into(),
                    transition: b.complete_transition().sut("complete_transition")?,
                };
                let (tx, _) = h.w.broadcast(0, &[op], 0, WitnessOrd::Tentative)?;
                let coins = &mut h.w.wallets[0].coins;
                coins.clear();
                coins.insert(Outpoint::new(tx.txid(), Vout::from_u32(1)));
                coins.insert(Outpoint::new(tx.txid(), Vout::from_u32(3)));
                w = h.w;
            }
        }
        Ok(w)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Act {
    /// Payment, delivered to the payee if so stated.
    Pay { from: usize, to: usize, c: usize, val: Val, coins: u32, method: Method, ben: Ben, deliver: bool },
    /// Acceptance of a payment made earlier.
    Deliver(usize),
    /// Every coin of the wallet is moved by its own transition, all in one
    /// transaction.
    Sweep { from: usize },
    /// One transition, or one per coin, splits the coins between two blinded
    /// seals and change; each payee receives their part.
    Fan { from: usize, to: (usize, usize), c: usize, coins: u32, each: bool },
    /// New status of a transaction, learned by all wallets.
    Status(usize, St),
    /// Contract exported by one wallet and imported by another.
    Share { from: usize, to: usize, c: usize },
    /// Publishes a global value from the given coin.
    Note { from: usize, coin: u32, val: u64 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Arch,
    Tent,
    Mined(u32),
}
impl St {
    pub fn ord(self) -> WitnessOrd {
        match self {
            St::Arch => WitnessOrd::Archived,
            St::Tent => WitnessOrd::Tentative,
            St::Mined(h) => mined(h),
        }
    }
}

impl Display for Act {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Act::Pay { from, to, c, val, coins, method, ben, deliver } => {
                let v = match val {
                    Val::Asset(v) => format!("a{v}"),
                    Val::Bonus(v) => format!("b{v}"),
                    Val::Right => "r".into(),
                    Val::Token(i, x) => format!("t{i}.{x}"),
                    Val::Doc(d) => format!("d{d}"),
                };
                write!(
                    f,
                    "pay{from}>{to}:c{c}:{v}:x{coins:x}:{}:{}{}",
                    mtag(*method),
                    ben_tag(*ben),
                    if *deliver { "" } else { ":hold" }
                )
            }
            Act::Deliver(k) => write!(f, "deliver{k}"),
            Act::Sweep { from } => write!(f, "sweep{from}"),
            Act::Fan { from, to: (x, y), c, coins, each } => {
                write!(f, "fan{from}>{x}+{y}:c{c}:x{coins:x}{}", if *each { ":each" } else { "" })
            }
            Act::Status(k, St::Arch) => write!(f, "arch{k}"),
            Act::Status(k, St::Tent) => write!(f, "tent{k}"),
            Act::Status(k, St::Mined(h)) => write!(f, "mine{k}@{h}"),
            Act::Share { from, to, c } => write!(f, "share{from}>{to}:c{c}"),
            Act::Note { from, coin, val } => write!(f, "note{from}:x{coin:x}:{val}"),
        }
    }
}

/// What may happen in a history.
#[derive(Clone)]
pub struct Menu {
    pub pairs: Vec<(usize, usize)>,
    pub methods: Vec<Method>,
    pub bens: Vec<Ben>,
    /// Parts of the available amount to pay, as (numerator, denominator).
    pub parts: Vec<(u64, u64)>,
    pub tokens: bool,
    pub bonus: bool,
    pub each_coin: bool,
    pub all_coins: bool,
    pub hold: bool,
    pub sweep: bool,
    pub fan: bool,
    pub share: bool,
    pub statuses: Vec<St>,
    pub notes: bool,
}

impl Default for Menu {
    fn default() -> Self {
        Menu {
            pairs: vec![(0, 1), (1, 0)],
            methods: vec![OP],
            bens: vec![Ben::Blind(OP), Ben::Vout(OP)],
            parts: vec![(1, 2)],
            tokens: true,
            bonus: false,
            each_coin: true,
            all_coins: true,
            hold: false,
            sweep: false,
            fan: false,
            share: false,
            statuses: vec![],
            notes: false,
        }
    }
}

pub struct Hist {
    pub w: World,
    /// Payments done, with payee, contract and whether it was delivered.
    pub pays: Vec<(Payment, usize, usize, bool)>,
    /// Transactions in order of appearance.
    pub txs: Vec<bp::Txid>,
    makers: BTreeMap<bp::Txid, usize>,
    ever: Vec<BTreeSet<Outpoint>>,
}

impl Clone for Hist {
    fn clone(&self) -> Self {
        Hist {
            w: self.w.clone(),
            pays: self.pays.clone(),
            txs: self.txs.clone(),
            makers: self.makers.clone(),
            ever: self.ever.clone(),
        }
    }
}

impl Hist {
    pub fn new(root: &Root, wallets: usize) -> R<Hist> {
        Ok(Hist::with(root.build(wallets)?))
    }

    pub fn with(w: World) -> Hist {
        let mut h = Hist { w, pays: vec![], txs: vec![], makers: BTreeMap::new(), ever: vec![] };
        h.note_owned();
        h
    }

    pub fn coins(&self, from: usize) -> Vec<Outpoint> { self.w.wallets[from].coins.iter().copied().collect() }

    pub fn select(&self, from: usize, mask: u32) -> Vec<Outpoint> {
        self.coins(from).into_iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|x| x.1).collect()
    }

    /// Visible state of a contract at the given outpoints, by the ledger.
    pub fn at(&self, w: usize, c: ContractId, coins: &[Outpoint]) -> Vec<(u16, Outpoint, String)> {
        self.w.wallets[w]
            .ledger
            .visible()
            .into_iter()
            .filter(|x| x.0 == c && coins.contains(&x.5))
            .map(|x| (x.2, x.5, x.6))
            .collect()
    }

    pub fn total(&self, w: usize, c: ContractId, coins: &[Outpoint], ty: AssignmentType) -> u64 {
        use amplify::Wrapper;
        self.at(w, c, coins)
            .iter()
            .filter(|x| x.0 == ty.to_inner())
            .map(|x| x.2.split('/').next().unwrap().parse::<u64>().expect("amount"))
            .sum()
    }

    pub fn tokens(&self, w: usize, c: ContractId, coins: &[Outpoint]) -> BTreeSet<(u32, u64)> {
        use amplify::hex::FromHex;
        use amplify::Wrapper;
        self.at(w, c, coins)
            .iter()
            .filter(|x| x.0 == OS_TOKEN.to_inner())
            .map(|x| {
                let b = Vec::<u8>::from_hex(x.2.split('/').next().unwrap()).unwrap();
                (u32::from_le_bytes(b[0..4].try_into().unwrap()), u64::from_le_bytes(b[4..12].try_into().unwrap()))
            })
            .collect()
    }

    /// Schema of the contract, by the ledger.
    pub fn sch(&self, c: ContractId) -> Sch {
        if self.w.wallets.iter().any(|w| {
            w.stock.contract_state(c).map(|s| rgbstd::persistence::ContractStateRead::schema_id(&s) == fx().alpha.schema_id()).unwrap_or(false)
        }) {
            Sch::Alpha
        } else {
            Sch::Beta
        }
    }

    pub fn actions(&self, menu: &Menu) -> Vec<Act> {
        let mut v = vec![];
        for &(from, to) in &menu.pairs {
            let coins = self.coins(from);
            for (c, cid) in self.w.contracts.iter().enumerate() {
                let holding: Vec<usize> =
                    (0..coins.len()).filter(|i| !self.at(from, *cid, &[coins[*i]]).is_empty()).collect();
                if holding.is_empty() {
                    continue;
                }
                let mut masks: BTreeSet<u32> = BTreeSet::new();
                if menu.each_coin {
                    masks.extend(holding.iter().map(|i| 1 << i));
                }
                if menu.all_coins {
                    masks.insert(holding.iter().map(|i| 1u32 << i).sum());
                }
                for mask in masks {
                    let sel = self.select(from, mask);
                    let mut vals = BTreeSet::new();
                    let asset = if self.sch(*cid) == Sch::Alpha { OS_ASSET } else { B_ASSET };
                    let total = self.total(from, *cid, &sel, asset);
                    if menu.fan && total > 2 {
                        for each in [false, true] {
                            if !each || mask.count_ones() > 1 {
                                v.push(Act::Fan { from, to: (to, to), c, coins: mask, each });
                                v.push(Act::Fan { from, to: (to, from), c, coins: mask, each });
                            }
                        }
                    }
                    for (n, d) in &menu.parts {
                        let x = total * n / d;
                        if x > 0 {
                            vals.insert(Val::Asset(x));
                        }
                    }
                    if menu.bonus {
                        let total = self.total(from, *cid, &sel, OS_BONUS);
                        if total > 0 {
                            vals.insert(Val::Bonus(total.div_ceil(2)));
                        }
                    }
                    if menu.tokens {
                        for (i, fr) in self.tokens(from, *cid, &sel) {
                            vals.insert(Val::Token(i, fr));
                        }
                    }
                    for val in vals {
                        for &method in &menu.methods {
                            for &ben in &menu.bens {
                                v.push(Act::Pay { from, to, c, val: val.clone(), coins: mask, method, ben, deliver: true });
                                if menu.hold {
                                    v.push(Act::Pay { from, to, c, val: val.clone(), coins: mask, method, ben, deliver: false });
                                }
                            }
                        }
                    }
                }
            }
        }
        for (k, p) in self.pays.iter().enumerate() {
            if !p.3 {
                v.push(Act::Deliver(k));
            }
        }
        if menu.sweep {
            for from in 0..self.w.wallets.len() {
                let coins = self.coins(from);
                if self.w.contracts.iter().any(|c| !self.at(from, *c, &coins).is_empty()) {
                    v.push(Act::Sweep { from });
                }
            }
        }
        if menu.notes {
            for from in 0..self.w.wallets.len() {
                let coins = self.coins(from);
                for i in 0..coins.len() {
                    if !self.at(from, self.w.contracts[0], &[coins[i]]).is_empty() {
                        v.push(Act::Note { from, coin: 1 << i, val: 100 + self.txs.len() as u64 });
                    }
                }
            }
        }
        for (k, txid) in self.txs.iter().enumerate() {
            for st in &menu.statuses {
                if self.w.chain.ord[txid] != st.ord() {
                    v.push(Act::Status(k, *st));
                }
            }
        }
        if menu.share {
            for &(from, to) in &menu.pairs {
                for (c, cid) in self.w.contracts.iter().enumerate() {
                    let known = self.w.wallets[from].ledger.ops.values().any(|o| o.contract == *cid);
                    if known {
                        v.push(Act::Share { from, to, c });
                    }
                }
            }
        }
        v
    }

    /// Operations moving every coin of the wallet by a transition of its own.
    pub fn sweep_ops(&mut self, from: usize) -> R<Vec<Op>> {
        let coins = self.coins(from);
        let mut ops = vec![];
        for cid in self.w.contracts.clone() {
            for (i, coin) in coins.iter().enumerate() {
                if self.at(from, cid, &[*coin]).is_empty() {
                    continue;
                }
                ops.extend(self.move_ops(from, cid, *coin, if i % 2 == 0 { 1 } else { 3 })?);
            }
        }
        Ok(ops)
    }

    /// Operations moving everything at the coin to an output of the new
    /// transaction, one per closing method.
    pub fn move_ops(&mut self, from: usize, cid: ContractId, coin: Outpoint, vout: u32) -> R<Vec<Op>> {
        let found = self.w.wallets[from]
            .stock
            .contract_assignments_for(cid, [xo(coin)])
            .sut("contract_assignments_for")?;
        let mut ops = vec![];
        let mut seals: Vec<_> = found.into_iter().collect();
        seals.sort_by_key(|x| x.0);
        for (seal, list) in seals {
            let method = seal.method();
            let mut b = self.w.wallets[from]
                .stock
                .transition_builder(cid, "LabAsset", Some("move"))
                .sut("transition_builder")?;
            let mut list: Vec<_> = list.into_iter().collect();
            list.sort_by_key(|x| x.0);
            for (opout, state) in list {
                let n = self.w.next();
                b = b.add_input(opout, state.clone()).sut("add_input")?;
                b = b.add_owned_state_raw(opout.ty, vseal(method, vout, n), state).sut("add_owned_state_raw")?;
            }
            ops.push(Op {
                contract: cid,
                method,
                inputs: [coin].into(),
                transition: b.complete_transition().sut("complete_transition")?,
            });
        }
        Ok(ops)
    }

    /// Operations, one per closing method and contract, which give a third of
    /// the asset to each of two blinded seals and keep everything else; state
    /// of other contracts at the coins is kept as well.
    pub fn fan_ops(
        &mut self,
        from: usize,
        to: (usize, usize),
        cid: ContractId,
        sel: &[Outpoint],
        each: bool,
    ) -> R<(Vec<Op>, [XChain<GraphSeal>; 2])> {
        let mut seals = vec![];
        for to in [to.0, to.1] {
            let (_, seal) = self.w.invoice(to, cid, Ben::Blind(OP), &Val::Asset(1))?;
            seals.push(seal.expect("blinded"));
        }
        let asset = if self.sch(cid) == Sch::Alpha { OS_ASSET } else { B_ASSET };
        let mut shares = [self.total(from, cid, sel, asset) / 3; 2];
        let mut ops = vec![];
        for other in self.w.contracts.clone() {
            if self.at(from, other, sel).is_empty() {
                continue;
            }
            let found = self.w.wallets[from]
                .stock
                .contract_assignments_for(other, sel.iter().map(|o| xo(*o)))
                .sut("contract_assignments_for")?;
            let mut by_method: BTreeMap<(u8, Option<Outpoint>), Vec<(Outpoint, Opout, PersistedState)>> = BTreeMap::new();
            for (seal, list) in found {
                let o = seal.to_outpoint();
                let o = sel.iter().copied().find(|x| xo(*x) == o).expect("selected");
                let key = (seal.method() as u8, if each { Some(o) } else { None });
                by_method.entry(key).or_default().extend(list.into_iter().map(|(k, s)| (o, k, s)));
            }
            for ((m, _), mut list) in by_method {
                let method = if m == OP as u8 { OP } else { TAP };
                list.sort_by_key(|x| x.1);
                let mut b = self.w.wallets[from]
                    .stock
                    .transition_builder(other, "LabAsset", Some("move"))
                    .sut("transition_builder")?;
                let mut inputs = BTreeSet::new();
                let mut total = 0u64;
                for (coin, opout, state) in list {
                    inputs.insert(coin);
                    b = b.add_input(opout, state.clone()).sut("add_input")?;
                    match state {
                        PersistedState::Amount(v, ..) if opout.ty == asset && other == cid => total += v.value(),
                        state => {
                            let n = self.w.next();
                            b = b.add_owned_state_raw(opout.ty, vseal(method, 1, n), state).sut("add_owned_state_raw")?
                        }
                    }
                }
                let mut give = vec![];
                for (share, seal) in shares.iter_mut().zip(&seals) {
                    let v = total.min(*share);
                    *share -= v;
                    total -= v;
                    give.push((BuilderSeal::Concealed(seal.conceal()), v));
                }
                let n = self.w.next();
                give.push((BuilderSeal::from(vseal(method, 1, n)), total));
                for (seal, v) in give.into_iter().filter(|x| x.1 > 0) {
                    let n = self.w.next();
                    b = b.add_fungible_state_raw(asset, seal, v, blinding(n)).sut("add_fungible_state_raw")?;
                }
                ops.push(Op {
                    contract: other,
                    method,
                    inputs,
                    transition: b.complete_transition().sut("complete_transition")?,
                });
            }
        }
        Ok((ops, [seals[0], seals[1]]))
    }

    pub fn apply(&mut self, a: &Act) -> R { self.apply_with(a, Ok) }

    /// As `apply`, with access to the batch composed for a payment.
    pub fn apply_with(&mut self, a: &Act, adjust: impl FnOnce(Batch) -> R<Batch>) -> R {
        let n = self.txs.len();
        self.perform_with(a, adjust)?;
        let from = match a {
            Act::Pay { from, .. } | Act::Sweep { from } | Act::Fan { from, .. } | Act::Note { from, .. } => *from,
            _ => 0,
        };
        for t in &self.txs[n..] {
            self.makers.insert(*t, from);
        }
        self.note_owned();
        Ok(())
    }

    fn perform_with(&mut self, a: &Act, adjust: impl FnOnce(Batch) -> R<Batch>) -> R {
        match a {
            Act::Pay { from, to, c, val, coins, method, ben, deliver } => {
                let sel = self.select(*from, *coins);
                let cid = self.w.contracts[*c];
                let p = self.w.pay_with(*from, *to, cid, val, &sel, *method, *ben, adjust)?;
                self.txs.push(p.tx.txid());
                self.pays.push((p, *to, *c, false));
                if *deliver {
                    self.deliver(self.pays.len() - 1)?;
                }
            }
            Act::Deliver(k) => self.deliver(*k)?,
            Act::Sweep { from } => {
                let ops = self.sweep_ops(*from)?;
                let (tx, _) = self.w.broadcast(*from, &ops, 0, WitnessOrd::Tentative)?;
                let txid = tx.txid();
                self.txs.push(txid);
                let spent: BTreeSet<_> = ops.iter().flat_map(|o| o.inputs.iter().copied()).collect();
                let coins = &mut self.w.wallets[*from].coins;
                coins.retain(|c| !spent.contains(c));
                coins.insert(Outpoint::new(txid, Vout::from_u32(1)));
                coins.insert(Outpoint::new(txid, Vout::from_u32(3)));
            }
            Act::Fan { from, to, c, coins, each } => {
                let sel = self.select(*from, *coins);
                let cid = self.w.contracts[*c];
                let (ops, seals) = self.fan_ops(*from, *to, cid, &sel, *each)?;
                let (tx, fascia) = self.w.broadcast(*from, &ops, 0, WitnessOrd::Tentative)?;
                let txid = tx.txid();
                self.txs.push(txid);
                let coins = &mut self.w.wallets[*from].coins;
                coins.retain(|c| !sel.contains(c));
                coins.insert(Outpoint::new(txid, Vout::from_u32(1)));
                for (to, seal) in [to.0, to.1].into_iter().zip(seals) {
                    let p = Payment {
                        from: *from,
                        tx: tx.clone(),
                        fascia: fascia.clone(),
                        ops: ops.clone(),
                        secret: Some(seal.conceal()),
                        outputs: vec![],
                    };
                    self.pays.push((p, to, *c, false));
                }
                for k in self.pays.len() - 2..self.pays.len() {
                    self.deliver(k)?;
                }
            }
            Act::Note { from, coin, val } => {
                let coin = self.select(*from, *coin)[0];
                let cid = self.w.contracts[0];
                let mut ops = self.move_ops(*from, cid, coin, 1)?;
                for op in &mut ops {
                    op.transition
                        .globals
                        .add_state(GS_NOTE, DataState::from(Confined::try_from(bytes(&Amount::from(*val))).expect("short")))
                        .sut("add_state")?;
                }
                let (tx, _) = self.w.broadcast(*from, &ops, 0, WitnessOrd::Tentative)?;
                self.txs.push(tx.txid());
                let coins = &mut self.w.wallets[*from].coins;
                coins.remove(&coin);
                coins.insert(Outpoint::new(tx.txid(), Vout::from_u32(1)));
            }
            Act::Status(k, st) => {
                let txid = self.txs[*k];
                self.w.chain.ord.insert(txid, st.ord());
                for i in 0..self.w.wallets.len() {
                    self.refresh(i, 0)?;
                }
            }
            Act::Share { from, to, c } => {
                let cid = self.w.contracts[*c];
                let contract = export(&self.w.wallets[*from].stock, cid)?;
                let valid = contract
                    .validate(&self.w.chain, true)
                    .map_err(|(s, _)| s)
                    .sut("validate exported contract")?;
                self.w.import(*to, valid)?;
            }
        }
        Ok(())
    }

    pub fn refresh(&mut self, i: usize, after: u32) -> R {
        let w = &mut self.w.wallets[i];
        w.ledger.refresh(&self.w.chain, after);
        w.stock.update_witnesses(&self.w.chain, after).sut("update_witnesses")?;
        Ok(())
    }

    pub fn deliver(&mut self, k: usize) -> R {
        let (p, to, c, _) = self.pays[k].clone();
        let from = self.payer(k);
        let cid = self.w.contracts[c];
        let t = self.w.transfer(from, cid, &p.outputs, p.secret)?;
        self.w.accept(to, t)?;
        self.pays[k].3 = true;
        Ok(())
    }

    fn payer(&self, k: usize) -> usize { self.pays[k].0.from }

    /// Compares every stock with its reference ledger.
    pub fn check_state(&self) -> R {
        for (i, w) in self.w.wallets.iter().enumerate() {
            let got = all_lines(&w.stock)?;
            let want = w.ledger.lines();
            if let Some(d) = diff(&got, &want) {
                fail!("state-differs-from-ledger", "wallet {i}: {d}");
            }
        }
        Ok(())
    }

    /// Wallet which made the transaction.
    pub fn maker(&self, txid: bp::Txid) -> Option<usize> { self.makers.get(&txid).copied() }

    /// Whether the output is or was controlled by the wallet.
    pub fn owned(&self, w: usize, o: Outpoint) -> bool { self.ever[w].contains(&o) }

    fn note_owned(&mut self) {
        self.ever.resize(self.w.wallets.len(), BTreeSet::new());
        for (i, w) in self.w.wallets.iter().enumerate() {
            self.ever[i].extend(w.coins.iter().copied());
        }
    }

    /// State and index of all wallets; the stash follows from what is indexed.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        for w in &self.w.wallets {
            let state = crate::core::fnv(&bytes(w.stock.as_state_provider()));
            let index = crate::core::fnv(&bytes(w.stock.as_index_provider()));
            s += &format!("{state:x}-{index:x};");
        }
        s
    }
}
