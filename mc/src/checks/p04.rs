//! Composition of payments: the batch is compared with the invoice and with
//! the state at the spent outputs.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use amplify::Wrapper;
use bp::dbc::Method;
use bp::seals::txout::TxPtr;
use bp::{Outpoint, Vout};
use rgbstd::containers::Batch;
use rgbstd::*;

use crate::core::{guard, Ctx, Fail, Sut, R};
use crate::lab::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Portfolio {
    Lab(Root),
    /// Several tokens, some equal, and several rights on one coin.
    Tokens,
    /// Amounts whose sum does not fit.
    Huge,
    /// Three contracts on overlapping coins.
    Three,
}

impl Portfolio {
    fn build(&self) -> R<Hist> {
        let mut w = World::new(2)?;
        match self {
            Portfolio::Lab(r) => return Hist::new(r, 2),
            Portfolio::Tokens => {
                let (a, b) = (w.fund(0), w.fund(0));
                w.issue(0, Sch::Alpha, &[], &[
                    (a, OP, Val::Token(1, 5)),
                    (a, OP, Val::Token(1, 6)),
                    (a, OP, Val::Right),
                    (b, OP, Val::Token(1, 5)),
                    (b, TAP, Val::Token(2, 5)),
                    (b, OP, Val::Right),
                    (b, OP, Val::Asset(3)),
                ])?;
            }
            Portfolio::Huge => {
                let (a, b) = (w.fund(0), w.fund(0));
                w.issue(0, Sch::Alpha, &[], &[
                    (a, OP, Val::Asset(u64::MAX)),
                    (b, OP, Val::Asset(u64::MAX)),
                    (b, OP, Val::Bonus(u64::MAX)),
                ])?;
            }
            Portfolio::Three => {
                let (a, b) = (w.fund(0), w.fund(0));
                w.issue(0, Sch::Alpha, &[], &[(a, OP, Val::Asset(5)), (b, OP, Val::Asset(6)), (a, OP, Val::Bonus(1)), (b, OP, Val::Bonus(2))])?;
                w.issue(0, Sch::Beta, &[], &[(a, OP, Val::Asset(7)), (b, TAP, Val::Asset(8)), (b, OP, Val::Asset(9))])?;
                w.issue(0, Sch::Alpha, &[], &[(b, OP, Val::Token(3, 3)), (b, OP, Val::Token(3, 3)), (b, OP, Val::Right), (a, TAP, Val::Right)])?;
            }
        }
        Ok(Hist::with(w))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Alloc {
    One,
    ByType,
    Never,
    NotFor(u16),
}

#[derive(Clone)]
struct Case {
    portfolio: Portfolio,
    pre: Vec<Act>,
    coins: Vec<Outpoint>,
    mask: u32,
    c: usize,
    val: Val,
    method: Method,
    ben: Ben,
    alloc: Alloc,
    constant: bool,
    /// Follow the payment up to the acceptance.
    follow: bool,
}

impl Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.portfolio)?;
        for a in &self.pre {
            write!(f, "|{a}")?;
        }
        write!(
            f,
            "|x{:x}:c{}:{:?}:{}:{}:{:?}{}",
            self.mask,
            self.c,
            self.val,
            mtag(self.method),
            ben_tag(self.ben),
            self.alloc,
            if self.constant { ":const" } else { "" }
        )
    }
}

thread_local! {
    static READY: RefCell<BTreeMap<String, Hist>> = const { RefCell::new(BTreeMap::new()) };
}

fn start(p: Portfolio, pre: &[Act]) -> R<Hist> {
    let key = format!("{p:?}{pre:?}");
    if let Some(h) = READY.with(|r| r.borrow().get(&key).cloned()) {
        return Ok(h);
    }
    let mut h = p.build()?;
    for a in pre {
        h.apply(a)?;
    }
    READY.with(|r| r.borrow_mut().insert(key, h.clone()));
    Ok(h)
}

/// All outputs of the payer, including those with state which is not valid
/// now.
fn coins(h: &Hist) -> Vec<Outpoint> {
    let mut v = BTreeSet::new();
    let l = &h.w.wallets[0].ledger;
    for (id, op) in &l.ops {
        for (seal, _) in op.outs.values() {
            if op.genesis {
                v.insert(seal.at(None));
            }
            for t in l.wit.get(id).into_iter().flatten() {
                v.insert(seal.at(Some(*t)));
            }
        }
    }
    v.into_iter().filter(|o| h.owned(0, *o)).collect()
}

type Held = BTreeMap<(u16, String), u128>;

fn put(h: &mut Held, ty: u16, val: &str) {
    let fungible = ty == OS_ASSET.to_inner() || ty == OS_BONUS.to_inner() || ty == B_ASSET.to_inner();
    let first = val.split('/').next().unwrap();
    if fungible {
        *h.entry((ty, "amount".into())).or_default() += first.parse::<u128>().expect("amount");
    } else {
        *h.entry((ty, first.to_string())).or_default() += 1;
    }
}

fn ty_of(h: &Hist, c: ContractId, val: &Val) -> Option<u16> {
    let alpha = h.sch(c) == Sch::Alpha;
    Some(
        match (val, alpha) {
            (Val::Asset(_), true) => OS_ASSET,
            (Val::Asset(_), false) => B_ASSET,
            (Val::Right, true) => OS_RIGHT,
            (Val::Right, false) => B_RIGHT,
            (Val::Bonus(_), true) => OS_BONUS,
            (Val::Token(..), true) => OS_TOKEN,
            (Val::Doc(_), true) => OS_DOC,
            _ => return None,
        }
        .to_inner(),
    )
}

fn token_text(i: u32, fr: u64) -> String {
    use amplify::hex::ToHex;
    let mut b = i.to_le_bytes().to_vec();
    b.extend(fr.to_le_bytes());
    b.to_hex()
}

/// Sides of an output: the beneficiary, or the vout of the payer.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Side {
    Payee,
    Own(u32),
}

fn one<St: ExposedState>(a: &Assign<St, GraphSeal>, ben: &XChain<bp::seals::SecretSeal>, own: Method, show: impl Fn(&St) -> String) -> R<(Side, String)> {
    match a {
        Assign::Revealed { seal: XChain::Bitcoin(seal), state, .. } => {
            ensure!(seal.txid == TxPtr::WitnessTx, "foreign-output", "state is assigned to {seal}");
            if seal.vout == Vout::from_u32(2) {
                return Ok((Side::Payee, show(state)));
            }
            ensure!(seal.method == own, "change-method", "change uses closing method {}", seal.method);
            Ok((Side::Own(seal.vout.into_u32()), show(state)))
        }
        Assign::ConfidentialSeal { seal, state, .. } => {
            ensure!(seal == ben, "foreign-output", "state is assigned to {seal}");
            Ok((Side::Payee, show(state)))
        }
        _ => fail!("concealed", "composed assignment is concealed"),
    }
}

fn run(ctx: &Ctx, c: &Case) -> R {
    let mut h = start(c.portfolio, &c.pre)?;
    let sel: Vec<Outpoint> = c.coins.iter().enumerate().filter(|(i, _)| c.mask & (1 << i) != 0).map(|x| *x.1).collect();
    let cid = h.w.contracts[c.c];
    // what is held, by contract
    let mut held: BTreeMap<ContractId, Held> = BTreeMap::new();
    let mut opouts: BTreeMap<ContractId, BTreeMap<(OpId, u16, u16), (u8, Outpoint)>> = BTreeMap::new();
    for x in h.w.wallets[0].ledger.visible() {
        if sel.contains(&x.5) {
            put(held.entry(x.0).or_default(), x.2, &x.6);
            opouts.entry(x.0).or_default().insert((x.1, x.2, x.3), (x.4, x.5));
        }
    }
    let ty = ty_of(&h, cid, &c.val);
    // the invoiced state
    let mut due = Held::new();
    if let Some(ty) = ty {
        match &c.val {
            Val::Asset(v) | Val::Bonus(v) => {
                due.insert((ty, "amount".into()), *v as u128);
            }
            Val::Token(i, fr) => {
                due.insert((ty, token_text(*i, *fr)), 1);
            }
            Val::Right => {
                due.insert((ty, "right".into()), 1);
            }
            Val::Doc(_) => {}
        }
    }
    let mine = held.get(&cid).cloned().unwrap_or_default();
    let enough = ty.is_some() && due.iter().all(|(k, v)| mine.get(k).copied().unwrap_or(0) >= *v) && !due.is_empty();
    // state which stays with the payer
    let mut rest = held.clone();
    if enough {
        let m = rest.entry(cid).or_default();
        for (k, v) in &due {
            *m.entry(k.clone()).or_default() -= v;
        }
        m.retain(|_, v| *v > 0);
    }
    rest.retain(|_, m| !m.is_empty());
    let place = |ty: u16| match c.alloc {
        Alloc::One => Some(1u32),
        Alloc::ByType => Some(if ty % 2 == 0 { 1 } else { 3 }),
        Alloc::Never => None,
        Alloc::NotFor(t) => (t != ty).then_some(1),
    };
    let placed = rest.values().flat_map(|m| m.keys()).all(|k| place(k.0).is_some());
    let huge = held.values().flat_map(|m| m.values()).any(|v| *v > u64::MAX as u128);

    let (inv, seal) = h.w.invoice(1, cid, c.ben, &c.val)?;
    let secret = seal.map(|s| commit_verify::Conceal::conceal(&s)).unwrap_or_else(|| XChain::Bitcoin(bp::seals::SecretSeal::from_inner([0; 32].into())));
    let cell = Cell::new(1_000_000u64);
    let seq = || {
        cell.set(cell.get() + 1);
        cell.get()
    };
    let prev: Vec<XOutputSeal> = sel.iter().map(|o| oseal(OP, *o)).collect();
    let before = c.follow.then(|| hash(&h.w.wallets[0].stock));
    let res = guard("compose", || {
        Ok(h.w.wallets[0].stock.compose_deterministic(
            &inv,
            prev,
            c.method,
            match c.ben {
                Ben::Blind(_) => None,
                Ben::Vout(_) => Some(Vout::from_u32(2)),
            },
            7,
            |_, ty, _| place(ty.to_inner()).map(Vout::from_u32),
            |_, _| {
                cell.set(cell.get() + 1);
                blinding(cell.get())
            },
            |id, ty| if c.constant { id.to_byte_array()[0] as u64 + ty.to_inner() as u64 } else { seq() },
        ))
    })?;
    ensure!(before.is_none() || Some(hash(&h.w.wallets[0].stock)) == before, "stock-changed", "composition changes the stock");
    let zero = matches!(c.val, Val::Asset(0) | Val::Bonus(0));
    let batch = match res {
        Err(e) => {
            let expected = !enough || !placed || huge || zero || !matches!(c.val, Val::Asset(_) | Val::Bonus(_) | Val::Token(..));
            ensure!(expected, "refused", "payment is possible, but {e:?}");
            ctx.outcome(if !enough { "insufficient" } else if !placed { "no-place" } else { "refused" });
            return Ok(());
        }
        Ok(b) => b,
    };
    ensure!(enough || zero, "overpaid", "payment composed though the inputs do not suffice");
    ensure!(placed, "no-place", "composed though there is no output for the rest");
    ctx.outcome(format!("paid-{}", c.val.name()));
    verify(&h, c, &batch, cid, &due, &rest, &opouts, secret, &place)?;
    // the whole way, if the state can be validated at all
    if c.follow && !huge && !zero && !matches!(c.portfolio, Portfolio::Lab(Root::Docs)) {
        end_to_end(&mut h, c, batch, cid, secret)?;
        ctx.outcome("accepted");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn verify(
    h: &Hist,
    c: &Case,
    batch: &Batch,
    cid: ContractId,
    due: &Held,
    rest: &BTreeMap<ContractId, Held>,
    opouts: &BTreeMap<ContractId, BTreeMap<(OpId, u16, u16), (u8, Outpoint)>>,
    secret: XChain<bp::seals::SecretSeal>,
    place: &dyn Fn(u16) -> Option<u32>,
) -> R {
    let mut spent: BTreeMap<ContractId, BTreeSet<(OpId, u16, u16)>> = BTreeMap::new();
    let mut paid: BTreeMap<ContractId, Held> = BTreeMap::new();
    let mut kept: BTreeMap<ContractId, Held> = BTreeMap::new();
    let main: BTreeSet<OpId> = [Some(&batch.main.first), batch.main.second.as_ref()].into_iter().flatten().map(|i| i.id).collect();
    for info in batch.clone() {
        let t = &info.transition;
        let id = t.contract_id;
        ensure!(main.contains(&info.id) == (id == cid), "batch-order", "operations of the contract paid are listed as blank");
        ensure!(t.nonce == 7, "priority", "priority is {}", t.nonce);
        let mut outs = BTreeSet::new();
        for i in t.inputs.iter() {
            let key = (i.prev_out.op, i.prev_out.ty.to_inner(), i.prev_out.no);
            let Some((m, o)) = opouts.get(&id).and_then(|x| x.get(&key)) else {
                fail!("foreign-input", "state {key:?} is not at the spent outputs");
            };
            ensure!(*m == info.method as u8, "input-method", "input closed by another method");
            outs.insert(*o);
            ensure!(spent.entry(id).or_default().insert(key), "input-twice", "state {key:?} is spent twice");
        }
        let stated: BTreeSet<Outpoint> = info.inputs.iter().map(|o| bitcoin(*o)).collect();
        ensure!(stated == outs, "stated-inputs", "stated inputs {stated:?}, spent {outs:?}");
        for (ty, ta) in t.assignments.iter() {
            let ty = ty.to_inner();
            let list: Vec<(Side, String)> = match ta {
                TypedAssigns::Declarative(l) => l.iter().map(|a| one(a, &secret, c.method, |_| "right".into())).collect::<R<_>>()?,
                TypedAssigns::Fungible(l) => l.iter().map(|a| one(a, &secret, c.method, amount_line)).collect::<R<_>>()?,
                TypedAssigns::Structured(l) => l.iter().map(|a| one(a, &secret, c.method, data_line)).collect::<R<_>>()?,
                TypedAssigns::Attachment(l) => l.iter().map(|a| one(a, &secret, c.method, attach_line)).collect::<R<_>>()?,
            };
            for (side, val) in list {
                match side {
                    Side::Payee => put(paid.entry(id).or_default(), ty, &val),
                    Side::Own(v) => {
                        ensure!(Some(v) == place(ty), "change-place", "change of type {ty} goes to output {v}");
                        put(kept.entry(id).or_default(), ty, &val)
                    }
                }
            }
        }
    }
    let all: BTreeMap<ContractId, BTreeSet<(OpId, u16, u16)>> =
        opouts.iter().map(|(c, m)| (*c, m.keys().copied().collect())).collect();
    ensure!(spent == all, "inputs", "spent state {spent:?} instead of {all:?}");
    let mut want = BTreeMap::new();
    let due: Held = due.iter().filter(|x| *x.1 > 0).map(|x| (x.0.clone(), *x.1)).collect();
    if !due.is_empty() {
        want.insert(cid, due);
    }
    ensure!(paid == want, "paid", "payee gets {paid:?} instead of {want:?}");
    ensure!(kept == *rest, "rest", "payer keeps {kept:?} instead of {rest:?}");
    let _ = h;
    Ok(())
}

fn end_to_end(h: &mut Hist, c: &Case, batch: Batch, cid: ContractId, secret: XChain<bp::seals::SecretSeal>) -> R {
    let ops = batch_ops(batch);
    let (tx, _) = h.w.broadcast(0, &ops, 0, rgbstd::vm::WitnessOrd::Tentative)?;
    let payee = Outpoint::new(tx.txid(), Vout::from_u32(2));
    let t = match c.ben {
        Ben::Blind(_) => h.w.transfer(0, cid, &[], Some(secret))?,
        Ben::Vout(m) => h.w.transfer(0, cid, &[oseal(m, payee)], None)?,
    };
    h.w.accept(1, t)?;
    h.check_state()
}

/// Invoices which can't be paid whatever is held.
fn refused(ctx: &Ctx) {
    let cases = ["no-contract", "no-iface", "unknown-contract", "unknown-iface", "unknown-operation", "unknown-assignment", "expired", "vout-missing", "vout-extra", "wrong-kind-amount", "wrong-kind-zero", "wrong-kind-data", "not-expired", "no-inputs"];
    ctx.run(&cases, |c| format!("invoice:{c}"), |c, _| {
        ctx.state(c);
        ctx.step();
        let mut h = Hist::new(&Root::Kinds, 2)?;
        let cid = h.w.contracts[0];
        let (mut inv, _) = h.w.invoice(1, cid, Ben::Blind(OP), &Val::Asset(1))?;
        crate::core::set_clock(1_800_000_000);
        let mut vout: Option<Vout> = None;
        let mut sel = h.coins(0);
        match *c {
            "no-contract" => inv.contract = None,
            "no-iface" => inv.iface = None,
            "unknown-contract" => inv.contract = Some(ContractId::copy_from_slice([7u8; 32]).unwrap()),
            "unknown-iface" => inv.iface = Some("LabOther".into()),
            "unknown-operation" => inv.operation = Some("fly".into()),
            "unknown-assignment" => inv.assignment = Some("nothing".into()),
            "expired" => inv.expiry = Some(1_799_999_999),
            "not-expired" => inv.expiry = Some(1_800_000_000),
            "vout-missing" => inv = make_invoice(cid, vout_ben(OP), &Val::Asset(1)),
            "vout-extra" => vout = Some(Vout::from_u32(2)),
            "wrong-kind-amount" => {
                inv = make_invoice(cid, inv.beneficiary.into_inner(), &Val::Asset(1));
                inv.operation = Some("move".into());
                inv.assignment = Some("right".into());
            }
            "wrong-kind-zero" => {
                inv = make_invoice(cid, inv.beneficiary.into_inner(), &Val::Asset(0));
                inv.operation = Some("move".into());
                inv.assignment = Some("right".into());
            }
            "wrong-kind-data" => {
                inv = make_invoice(cid, inv.beneficiary.into_inner(), &Val::Token(1, 5));
                inv.assignment = Some("asset".into());
            }
            "no-inputs" => sel.clear(),
            _ => panic!("unknown case"),
        }
        let prev: Vec<XOutputSeal> = sel.iter().map(|o| oseal(OP, *o)).collect();
        let res = guard("compose", || {
            Ok(h.w.wallets[0].stock.compose_deterministic(&inv, prev, OP, vout, 7, |_, _, _| Some(Vout::from_u32(1)), |_, _| blinding(5), |_, _| 5))
        })?;
        crate::core::set_clock(0);
        match (*c, res) {
            ("not-expired", r) => {
                r.sut("compose")?;
            }
            (_, Ok(_)) => fail!("composed", "a batch is composed for {c}"),
            _ => {}
        }
        ctx.outcome("refused-invoice");
        Ok::<(), Fail>(())
    });
}

pub fn check(ctx: &Ctx) -> i32 {
    let pay = |mask: u32, a: u64| Act::Pay { from: 0, to: 1, c: 0, val: Val::Asset(a), coins: mask, method: OP, ben: Ben::Vout(OP), deliver: false };
    let mut pres: Vec<(Portfolio, Vec<Act>)> = vec![];
    let labs = [Root::One(OP), Root::One(TAP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many, Root::Docs];
    for r in labs {
        pres.push((Portfolio::Lab(r), vec![]));
    }
    for p in [Portfolio::Tokens, Portfolio::Huge, Portfolio::Three] {
        pres.push((p, vec![]));
    }
    // earlier payments, valid or not
    for r in [Root::TwoMethods, Root::Kinds, Root::Shared] {
        pres.push((Portfolio::Lab(r), vec![pay(1, 5)]));
        pres.push((Portfolio::Lab(r), vec![pay(1, 5), Act::Status(0, St::Arch)]));
    }
    let full = ctx.thorough;
    let mut cases = vec![];
    for (p, pre) in pres {
        let Ok(h) = start(p, &pre) else {
            ctx.violation(&format!("{p:?}|{pre:?}"), Fail::new("start", "preparation fails"));
            continue;
        };
        let all = coins(&h);
        let n = all.len().min(4);
        for mask in 1..1u32 << n {
            let sel: Vec<Outpoint> = (0..n).filter(|i| mask & (1 << i) != 0).map(|i| all[i]).collect();
            for c in 0..h.w.contracts.len() {
                let cid = h.w.contracts[c];
                let mut vals: BTreeSet<Val> = BTreeSet::new();
                let asset = if h.sch(cid) == Sch::Alpha { OS_ASSET } else { B_ASSET };
                let mut sums: BTreeSet<u128> = BTreeSet::new();
                let mut bonus = 0u128;
                let mut tokens = BTreeSet::from([(9u32, 9u64)]);
                let mut per: BTreeMap<u8, u128> = BTreeMap::new();
                for x in h.w.wallets[0].ledger.visible() {
                    if x.0 != cid || !sel.contains(&x.5) {
                        continue;
                    }
                    let first = x.6.split('/').next().unwrap().to_string();
                    if x.2 == asset.to_inner() {
                        *per.entry(x.4).or_default() += first.parse::<u128>().unwrap();
                    } else if x.2 == OS_BONUS.to_inner() && asset == OS_ASSET {
                        bonus += first.parse::<u128>().unwrap();
                    }
                }
                tokens.extend(if h.sch(cid) == Sch::Alpha { h.tokens(0, cid, &sel) } else { Default::default() });
                sums.insert(per.values().sum());
                sums.extend(per.values().copied());
                for s in sums {
                    for d in [-1i128, 0, 1] {
                        if let Ok(v) = u64::try_from(s as i128 + d) {
                            vals.insert(Val::Asset(v));
                        }
                    }
                }
                vals.insert(Val::Asset(1));
                vals.insert(Val::Asset(u64::MAX));
                vals.insert(Val::Right);
                if h.sch(cid) == Sch::Alpha {
                    for b in [1, bonus, bonus + 1] {
                        if let Ok(b) = u64::try_from(b) {
                            vals.insert(Val::Bonus(b));
                        }
                    }
                    for (i, fr) in tokens {
                        vals.insert(Val::Token(i, fr));
                    }
                    vals.insert(Val::Doc(1));
                }
                for val in vals {
                    for method in [OP, TAP] {
                        for ben in [Ben::Blind(OP), Ben::Vout(TAP)] {
                            for alloc in [Alloc::One, Alloc::ByType, Alloc::Never, Alloc::NotFor(OS_RIGHT.to_inner())] {
                                for constant in [false, true] {
                                    // quick: vary one thing at a time
                                    let odd = (ben != Ben::Blind(OP)) as u32 + (alloc != Alloc::One) as u32 + constant as u32;
                                    if !full && (odd > 1 || (odd == 1 && method == TAP)) {
                                        continue;
                                    }
                                    cases.push(Case { portfolio: p, pre: pre.clone(), coins: all.clone(), mask, c, val: val.clone(), method, ben, alloc, constant, follow: full || odd == 0 });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.run(&cases, |c| c.to_string(), |c, k| {
        ctx.state(k);
        ctx.step();
        run(ctx, c)
    });
    refused(ctx);
    ctx.finish(
        "exploration",
        "all portfolios (up to three contracts, all state kinds, both closing methods, valid and archived history) x all subsets of spent outputs x invoices around every boundary x beneficiary kinds x output allocators x blinding policies; the batch is compared with the invoice and the state held, then signed, validated and accepted; non-trivial = distinct combination",
        &["amounts above 64 bits in total may be refused", "rights and attachments may be refused by invoices, but nothing may be lost"],
    )
}
