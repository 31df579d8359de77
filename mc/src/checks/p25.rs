//! Annotations of supplements, and supplements and signatures kept by a stock.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use amplify::confinement::{Confined, MediumBlob, NonEmptyOrdMap};
use amplify::Wrapper;
use bp::Vout;
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::*;
use rgbstd::info::{FeatureList, IfaceClassName};
use rgbstd::persistence::{StashReadProvider, StashWriteProvider, Stock};
use rgbstd::*;
use strict_encoding::{
    DecodeError, FieldName, StrictDeserialize, StrictEncode, StrictSerialize, TypedRead, TypedWrite,
};

use crate::core::{guard, Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

// Annotations

/// Data longer than an annotation may be.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Long(MediumBlob);
impl strict_encoding::StrictType for Long {
    const STRICT_LIB_NAME: &'static str = "Lab";
}
impl strict_encoding::StrictEncode for Long {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> std::io::Result<W> { self.0.strict_encode(w) }
}
impl strict_encoding::StrictDecode for Long {
    fn strict_decode(r: &mut impl TypedRead) -> Result<Self, DecodeError> { MediumBlob::strict_decode(r).map(Long) }
}
impl StrictSerialize for Long {}
impl StrictDeserialize for Long {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Datum {
    Amount(u64),
    Hint(VelocityHint),
    Long(usize),
}

impl Datum {
    fn bytes(self) -> Vec<u8> {
        match self {
            Datum::Amount(v) => v.to_le_bytes().to_vec(),
            Datum::Hint(h) => vec![h as u8],
            Datum::Long(n) => {
                let mut v = (n as u32).to_le_bytes()[..3].to_vec();
                v.extend(vec![7u8; n]);
                v
            }
        }
    }
    fn fits(self) -> bool { self.bytes().len() <= 0xFFFF }
}

#[derive(Clone, PartialEq, Debug)]
struct Put {
    sub: SupplSub,
    item: SupplItem,
    name: &'static str,
    datum: Datum,
    /// Through the shorthand for the default item.
    short: u8,
}

impl Display for Put {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}.{:?}.{}={:?}/{}", self.sub, self.item, self.name, self.datum, self.short)
    }
}

const SUBS: [SupplSub; 10] = [
    SupplSub::Itself,
    SupplSub::Meta,
    SupplSub::Global,
    SupplSub::Owned,
    SupplSub::Valency,
    SupplSub::Assignment,
    SupplSub::Genesis,
    SupplSub::Transition,
    SupplSub::Extension,
    SupplSub::Exception,
];

fn items() -> Vec<SupplItem> {
    vec![
        SupplItem::Default,
        SupplItem::TypeNo(0),
        SupplItem::TypeNo(1),
        SupplItem::TypeNo(256),
        SupplItem::TypeName("Name".into()),
        SupplItem::FieldName("name".into()),
        SupplItem::FieldName("other".into()),
        SupplItem::VariantName("name".into()),
    ]
}

const NAMES: [&str; 3] = ["Velocity", "Standard", "Features"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fill {
    Empty,
    /// So many annotations of one item.
    Names(usize),
    /// So many annotated items of one part.
    Items(usize),
}
impl Display for Fill {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}

type Model = BTreeMap<(SupplSub, SupplItem, String), Datum>;

#[derive(Clone)]
struct Annotated {
    suppl: Supplement,
    model: Model,
}

struct Annotating {
    puts: Vec<Put>,
}

fn name(s: &str) -> AnnotationName { s.parse().expect("name") }

fn put(s: &mut Supplement, p: &Put, n: AnnotationName) -> Result<bool, strict_encoding::SerializeError> {
    fn go(s: &mut Supplement, p: &Put, n: AnnotationName, d: &impl StrictSerialize) -> Result<bool, strict_encoding::SerializeError> {
        match p.short {
            2 => s.annotate_itself(n, d),
            1 => s.annotate_default(p.sub, n, d),
            _ => s.annotate(p.sub, p.item.clone(), n, d),
        }
    }
    match p.datum {
        Datum::Amount(v) => go(s, p, n, &Amount::from(v)),
        Datum::Hint(h) => go(s, p, n, &h),
        Datum::Long(len) => go(s, p, n, &Long(Confined::try_from(vec![7u8; len]).expect("medium"))),
    }
}

fn read_one(s: &Supplement, sub: SupplSub, item: &SupplItem, n: &str, want: Option<&Datum>) -> R {
    let place = s.annotations.get(&sub).and_then(|m| m.get(item)).and_then(|m| m.get(&name(n)));
    if want.is_none() && place.is_none() && s.get::<Long>(sub, item.clone(), name(n)).is_none() {
        return Ok(());
    }
    let long = s.get::<Long>(sub, item.clone(), name(n));
    let hint = s.get::<VelocityHint>(sub, item.clone(), name(n));
    let amount = s.get::<Amount>(sub, item.clone(), name(n));
    let at = format!("{sub:?} {item:?} {n}");
    let Some(d) = want else {
        ensure!(long.is_none() && hint.is_none() && amount.is_none(), "made-up", "{at} was never annotated");
        return Ok(());
    };
    let (is_amount, is_hint, is_long) = match d {
        Datum::Amount(v) => (amount == Some(Ok(Amount::from(*v))), false, false),
        Datum::Hint(h) => (false, hint == Some(Ok(*h)), false),
        Datum::Long(n) => (false, false, matches!(&long, Some(Ok(l)) if l.0.len() == *n && l.0.iter().all(|b| *b == 7))),
    };
    ensure!(is_amount || is_hint || is_long, "annotation", "{at} is read as {amount:?}/{hint:?} instead of {d:?}");
    // data of another type is there, but isn't readable
    ensure!(amount.is_some() && hint.is_some() && long.is_some(), "present", "{at} is not found for some types");
    ensure!(matches!(d, Datum::Amount(_)) || amount.unwrap().is_err(), "typed", "{at} is read as an amount");
    ensure!(matches!(d, Datum::Hint(_)) || hint.unwrap().is_err(), "typed", "{at} is read as a hint");
    if *item == SupplItem::Default {
        let opt = s.get_default_opt::<Amount>(sub, name(n));
        let def = s.get_default::<Amount>(sub, name(n));
        match d {
            Datum::Amount(v) => {
                ensure!(opt == Some(Amount::from(*v)), "default-opt", "{at} is read as {opt:?}");
                ensure!(matches!(def, Some(Ok(x)) if x == Amount::from(*v)), "default", "{at} differs as default");
            }
            _ => {
                ensure!(opt.is_none(), "default-opt", "{at} is read as {opt:?}");
                ensure!(matches!(def, Some(Err(_))), "default", "{at} differs as default");
            }
        }
    }
    Ok(())
}

fn read_all(s: &Annotated) -> R {
    let mut places: BTreeSet<(SupplSub, SupplItem, String)> = s.model.keys().cloned().collect();
    for sub in SUBS {
        for item in items() {
            for n in NAMES {
                places.insert((sub, item.clone(), n.to_string()));
            }
        }
    }
    for (sub, item, n) in places {
        let want = s.model.get(&(sub, item.clone(), n.clone()));
        read_one(&s.suppl, sub, &item, &n, want)?;
    }
    let total: usize = s.suppl.annotations.values().flat_map(|m| m.values()).map(|a| a.len()).sum();
    ensure!(total == s.model.len(), "total", "supplement has {total} annotations instead of {}", s.model.len());
    Ok(())
}

fn apply_put(s: &mut Annotated, p: &Put, n: String) -> R<&'static str> {
    let before = s.suppl.clone();
    let place = (p.sub, p.item.clone(), n.clone());
    let prev = s.model.contains_key(&place);
    let names = s.model.keys().filter(|(a, b, _)| *a == p.sub && *b == p.item).count();
    let groups = s.model.keys().filter(|(a, _, _)| *a == p.sub).map(|(_, b, _)| b.clone()).collect::<BTreeSet<_>>();
    let room = prev || (names < 255 && (groups.contains(&p.item) || groups.len() < 255));
    let res = guard("annotate", || Ok(put(&mut s.suppl, p, name(&n))))?;
    let what = match res {
        Ok(replaced) => {
            ensure!(p.datum.fits() && room, "too-much", "annotation which doesn't fit was accepted");
            ensure!(replaced == prev, "replaced", "annotation is reported as replacing: {replaced}");
            s.model.insert(place, p.datum);
            if prev {
                "replace"
            } else {
                "add"
            }
        }
        Err(_) => {
            ensure!(!p.datum.fits() || !room, "refused", "annotation which fits was refused");
            ensure!(s.suppl == before, "lost", "a refused annotation changed the supplement");
            "refuse"
        }
    };
    Ok(what)
}

impl Space for Annotating {
    type Root = Fill;
    type S = Annotated;
    type A = Put;
    fn init(&self, root: &Fill) -> R<Annotated> {
        let suppl = Supplement::new(ContractId::from([7u8; 32]), "ssi:lab".parse::<Identity>().expect("identity"));
        let mut s = Annotated { suppl, model: Default::default() };
        match *root {
            Fill::Empty => {}
            Fill::Names(n) => {
                let p = Put { sub: SupplSub::Owned, item: SupplItem::TypeNo(1), name: "", datum: Datum::Amount(1), short: 0 };
                for i in 0..n {
                    apply_put(&mut s, &p, format!("Name{i}"))?;
                }
            }
            Fill::Items(n) => {
                for i in 0..n {
                    let item = SupplItem::TypeNo(1000 + i as u16);
                    let p = Put { sub: SupplSub::Owned, item, name: "", datum: Datum::Amount(1), short: 0 };
                    apply_put(&mut s, &p, "Velocity".into())?;
                }
            }
        }
        read_all(&s)?;
        Ok(s)
    }
    fn fork(&self, s: &Annotated) -> Annotated { s.clone() }
    fn actions(&self, _: &Annotated, _: usize) -> Vec<Put> { self.puts.clone() }
    fn step(&self, ctx: &Ctx, s: &mut Annotated, p: &Put) -> R {
        let what = apply_put(s, p, p.name.to_string())?;
        ctx.outcome(what);
        read_all(s)?;
        let back = Supplement::from_strict_serialized::<0xFFFFFF>(Confined::try_from(bytes_big(&s.suppl)).expect("size"));
        let back = back.sut("decode supplement")?;
        ensure!(back == s.suppl, "stored", "supplement differs after encoding and decoding");
        Ok(())
    }
    fn canon(&self, s: &Annotated) -> String { format!("annot {:?}", s.model) }
    fn complete_canon(&self) -> bool { true }
}

fn bytes_big(s: &Supplement) -> Vec<u8> {
    s.to_strict_serialized::<0xFFFFFF>().expect("supplement").release()
}

fn puts(wide: bool) -> Vec<Put> {
    let mut v = vec![];
    let datums: &[Datum] = if wide {
        &[Datum::Hint(VelocityHint::Seldom)]
    } else {
        &[Datum::Amount(1), Datum::Amount(2), Datum::Long(0xFFFC), Datum::Long(0xFFFD)]
    };
    let subs: &[SupplSub] = if wide { &SUBS } else { &[SupplSub::Itself, SupplSub::Owned] };
    let its = if wide { items() } else { vec![SupplItem::Default, SupplItem::TypeNo(1)] };
    let names = &NAMES[..2];
    for sub in subs {
        for item in &its {
            for name in names {
                for datum in datums {
                    // the longest data which fits is costly, one place is enough
                    if *datum == Datum::Long(0xFFFC) && (*item != SupplItem::Default || *name != NAMES[0]) {
                        continue;
                    }
                    let base = Put { sub: *sub, item: item.clone(), name, datum: *datum, short: 0 };
                    v.push(base.clone());
                    if *item == SupplItem::Default && *datum == datums[0] {
                        v.push(Put { short: 1, ..base.clone() });
                        if *sub == SupplSub::Itself {
                            v.push(Put { short: 2, ..base.clone() });
                        }
                    }
                }
            }
        }
    }
    v
}

// Supplements and signatures in a stock

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Item {
    /// Supplement of the content, in one of the variants.
    Sup(usize, usize),
    /// Signature of the content by the signer, in one of the variants.
    Sig(usize, usize, u8),
}

#[derive(Clone, PartialEq, Debug)]
enum A {
    Kit(Vec<Item>),
    Contract(Vec<Item>),
    Trust(usize, TrustLevel),
}

impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Kit(i) => write!(f, "kit{i:?}"),
            A::Contract(i) => write!(f, "contract{i:?}"),
            A::Trust(s, l) => write!(f, "trust{s}={l}"),
        }
    }
}

const SIGNERS: [&str; 3] = ["Alice <a@lab.org>", "Bob <b@lab.org>", "Carol <c@lab.org>"];
fn signer(n: usize) -> Identity { SIGNERS[n].parse().expect("identity") }

struct Kept {
    stock: Stock,
    contract: Contract,
    chain: Chain,
    supp: BTreeMap<usize, BTreeSet<usize>>,
    sigs: BTreeMap<(usize, usize), BTreeSet<u8>>,
    trust: BTreeMap<usize, TrustLevel>,
}

struct Keeping {
    acts: Vec<A>,
}

fn refs(contract: &Contract) -> [(Option<ContentRef>, ContentId); 6] {
    let x = fx();
    let c = contract.genesis.contract_id();
    [
        (Some(c.into()), ContentId::Genesis(c)),
        (Some(x.alpha.schema_id().into()), ContentId::Schema(x.alpha.schema_id())),
        (Some(x.iface.iface_id().into()), ContentId::Iface(x.iface.iface_id())),
        (Some(x.aimpl.impl_id().into()), ContentId::IfaceImpl(x.aimpl.impl_id())),
        (Some(x.beta.schema_id().into()), ContentId::Schema(x.beta.schema_id())),
        (None, ContentId::Suppl(variant(c.into(), 0).suppl_id())),
    ]
}

/// Variants of a supplement: other creator, other time, other data.
fn variant(r: ContentRef, n: usize) -> Supplement {
    match n {
        0 => suppl(r, SIGNERS[0], 1000, 1),
        1 => suppl(r, SIGNERS[1], 1000, 1),
        2 => suppl(r, SIGNERS[0], 500, 2),
        _ => suppl(r, SIGNERS[0], 1000, 2),
    }
}

fn blob(n: u8) -> SigBlob { SigBlob::from(Confined::try_from(vec![n + 1; n as usize + 1]).expect("short")) }

/// Supplements and signatures of the items.
fn sort_out(refs: &[(Option<ContentRef>, ContentId); 6], items: &[Item]) -> (Vec<Supplement>, BTreeMap<ContentId, ContentSigs>) {
    let mut sups = vec![];
    let mut by: BTreeMap<ContentId, Option<NonEmptyOrdMap<Identity, SigBlob, 10>>> = BTreeMap::new();
    for i in items {
        match *i {
            Item::Sup(c, n) => sups.push(variant(refs[c].0.expect("content"), n)),
            Item::Sig(c, s, n) => {
                let e = by.entry(refs[c].1).or_default();
                match e {
                    None => *e = Some(NonEmptyOrdMap::with_key_value(signer(s), blob(n))),
                    Some(m) => drop(m.insert(signer(s), blob(n))),
                }
            }
        }
    }
    (sups, by.into_iter().map(|(k, v)| (k, ContentSigs::from(v.expect("some")))).collect())
}

impl Kept {
    fn take(&mut self, items: &[Item]) {
        for i in items {
            match *i {
                Item::Sup(c, n) => drop(self.supp.entry(c).or_default().insert(n)),
                Item::Sig(c, s, n) => {
                    if self.trust.get(&s).copied() != Some(TrustLevel::Malicious) {
                        self.sigs.entry((c, s)).or_default().insert(n);
                    }
                }
            }
        }
    }

    fn inspect(&self, ctx: &Ctx) -> R {
        let refs = refs(&self.contract);
        let p = self.stock.as_stash_provider();
        for (c, (r, id)) in refs.iter().enumerate() {
            if let Some(r) = r {
                let want: BTreeSet<Supplement> =
                    self.supp.get(&c).into_iter().flatten().map(|n| variant(*r, *n)).collect();
                let got: Vec<Supplement> = p.supplements(*r).sut("supplements")?.collect();
                ensure!(got.len() == want.len(), "suppl-number", "content {c} has {} supplements instead of {}", got.len(), want.len());
                let got: BTreeSet<Supplement> = got.into_iter().collect();
                ensure!(got == want, "suppl", "content {c} has other supplements than those imported");
                let one = p.supplement(*r).sut("supplement")?;
                ensure!(one.is_none() == want.is_empty(), "suppl-one", "content {c}: no single supplement is given");
                ensure!(one.map(|o| want.contains(o)).unwrap_or(true), "suppl-one", "content {c}: foreign supplement");
            }
            let got = p.sigs_for(id).sut("sigs_for")?;
            let want: BTreeSet<usize> = (0..SIGNERS.len()).filter(|s| self.sigs.contains_key(&(c, *s))).collect();
            match got {
                None => ensure!(want.is_empty(), "sigs-lost", "content {c} has no signatures instead of those of {want:?}"),
                Some(sigs) => {
                    let have: BTreeSet<usize> =
                        sigs.keys().map(|i| SIGNERS.iter().position(|s| *s == i.to_string()).unwrap_or(99)).collect();
                    ensure!(have == want, "sigs", "content {c} is signed by {have:?} instead of {want:?}");
                    for s in want {
                        let b = sigs.get(&signer(s)).expect("signer");
                        let ok = self.sigs[&(c, s)].iter().any(|n| blob(*n) == *b);
                        ensure!(ok, "sig-blob", "signature of {s} for content {c} was never imported");
                    }
                }
            }
        }
        for s in 0..SIGNERS.len() {
            let got = p.get_trust(&signer(s)).sut("get_trust")?;
            let want = self.trust.get(&s).copied().unwrap_or_default();
            ensure!(got == want, "trust", "signer {s} has trust {got} instead of {want}");
        }
        // an export speaks about the parts it has
        let e = export(&self.stock, self.contract.genesis.contract_id())?;
        for (c, (r, id)) in refs.iter().enumerate().take(4) {
            let got = e.signatures.get(id);
            let want = p.sigs_for(id).sut("sigs_for")?;
            ensure!(got == want, "export-sigs", "export has other signatures of content {c} than the stock");
            let r = r.expect("content");
            let known = self.supp.get(&c).cloned().unwrap_or_default();
            let out: Vec<&Supplement> = e.supplements.iter().filter(|s| s.content_id == r).collect();
            ensure!(out.is_empty() == known.is_empty(), "export-suppl", "supplement of content {c} is not exported");
            ensure!(out.iter().all(|s| known.iter().any(|n| variant(r, *n) == **s)), "export-suppl", "foreign supplement of content {c} is exported");
        }
        let own: BTreeSet<ContentId> = refs.iter().take(4).map(|r| r.1).collect();
        let extra = e.signatures.keys().filter(|k| !own.contains(k) && !matches!(k, ContentId::Suppl(_))).count();
        ensure!(extra == 0, "export-sigs", "export has {extra} signatures of foreign content");
        let refs: BTreeSet<ContentRef> = refs.iter().take(4).filter_map(|r| r.0).collect();
        ensure!(e.supplements.iter().all(|s| refs.contains(&s.content_id)), "export-suppl", "export has foreign supplements");
        ctx.outcome(format!("kept s{} g{}", self.supp.values().map(|s| s.len()).sum::<usize>(), self.sigs.len()));
        Ok(())
    }
}

impl Space for Keeping {
    type Root = u8;
    type S = Kept;
    type A = A;
    fn init(&self, known: &u8) -> R<Kept> {
        let w = Root::One(OP).build(1)?;
        let contract = export(&w.wallets[0].stock, w.contracts[0])?;
        let stock = w.wallets[0].stock.clone_no_persistence();
        let mut s = Kept { stock, contract, chain: w.chain.clone(), supp: none!(), sigs: none!(), trust: none!() };
        if *known > 0 {
            // somebody is known for worse, somebody for better
            for (n, l) in [(1, TrustLevel::Trusted), (2, TrustLevel::Malicious)] {
                s.stock.as_stash_provider_mut().set_trust(signer(n), l).sut("set_trust")?;
                s.trust.insert(n, l);
            }
        }
        Ok(s)
    }
    fn fork(&self, s: &Kept) -> Kept {
        Kept {
            stock: s.stock.clone_no_persistence(),
            contract: s.contract.clone(),
            chain: s.chain.clone(),
            supp: s.supp.clone(),
            sigs: s.sigs.clone(),
            trust: s.trust.clone(),
        }
    }
    fn actions(&self, _: &Kept, _: usize) -> Vec<A> { self.acts.clone() }
    fn step(&self, ctx: &Ctx, s: &mut Kept, a: &A) -> R {
        match a {
            A::Kit(items) => {
                let (sups, sigs) = sort_out(&refs(&s.contract), items);
                let mut kit = Kit::default();
                kit.supplements = Confined::from_iter_checked(sups);
                kit.signatures = Confined::from_iter_checked(sigs);
                let kit = kit.validate().map_err(|(s, _)| s).sut("validate kit")?;
                s.stock.import_kit(kit).sut("import_kit")?;
                s.take(items);
            }
            A::Contract(items) => {
                let (sups, sigs) = sort_out(&refs(&s.contract), items);
                let mut c = s.contract.clone();
                c.supplements = Confined::from_iter_checked(sups);
                c.signatures = Confined::from_iter_checked(sigs);
                let c = c.validate(&s.chain, true).map_err(|(s, _)| s).sut("validate contract")?;
                s.stock.import_contract(c, &s.chain).sut("import_contract")?;
                s.take(items);
            }
            A::Trust(n, l) => {
                s.stock.as_stash_provider_mut().set_trust(signer(*n), *l).sut("set_trust")?;
                s.trust.insert(*n, *l);
            }
        }
        s.inspect(ctx)
    }
    fn canon(&self, s: &Kept) -> String { format!("{} {:?} {:?} {:?}", hash(&s.stock), s.supp, s.sigs, s.trust) }
    fn complete_canon(&self) -> bool { true }
}

fn acts(thorough: bool) -> Vec<A> {
    let mut v = vec![];
    let mut singles = vec![];
    for c in 0..6 {
        if c < 5 {
            for n in 0..if c == 0 || thorough { 4 } else { 2 } {
                singles.push(Item::Sup(c, n));
            }
        }
        for s in 0..3 {
            singles.push(Item::Sig(c, s, 0));
            if c < 2 {
                singles.push(Item::Sig(c, s, 1));
            }
        }
    }
    v.extend(singles.iter().map(|i| A::Kit(vec![*i])));
    v.extend(singles.iter().filter(|i| matches!(i, Item::Sup(0 | 1, 0 | 1) | Item::Sig(0 | 3, _, 0))).map(|i| A::Contract(vec![*i])));
    v.push(A::Kit(vec![Item::Sup(0, 0), Item::Sup(0, 1), Item::Sup(1, 0)]));
    v.push(A::Kit(vec![Item::Sup(2, 0), Item::Sig(2, 0, 0), Item::Sig(2, 2, 0)]));
    v.push(A::Kit(vec![Item::Sig(0, 0, 0), Item::Sig(0, 1, 1), Item::Sig(0, 2, 0), Item::Sig(1, 0, 0)]));
    v.push(A::Contract(vec![Item::Sup(0, 0), Item::Sup(0, 3), Item::Sig(0, 1, 0), Item::Sig(0, 2, 0), Item::Sig(5, 1, 0)]));
    for l in [TrustLevel::Malicious, TrustLevel::Unknown, TrustLevel::Untrusted, TrustLevel::Trusted, TrustLevel::Ultimate] {
        v.push(A::Trust(2, l));
    }
    v
}

// Reading the annotations the library itself gives a meaning

/// Interface class and features as told in the list of interfaces.
fn iface_info(ctx: &Ctx, sub: SupplSub, item: SupplItem, what: usize, other: bool) -> R {
    let mut stock = fresh_stock()?;
    let x = fx();
    let (li, _) = lite();
    let mut kit = Kit::default();
    kit.ifaces.push(li.clone()).sut("push")?;
    stock.import_kit(kit.validate().map_err(|(s, _)| s).sut("kit")?).sut("import_kit")?;
    let to = if other { li.iface_id() } else { x.iface.iface_id() };
    let mut s = Supplement::new(to, signer(0));
    let class: IfaceClassName = "Fungible_Class".parse().expect("class");
    let features = FeatureList::from(tiny_bset! { FieldName::from("reissuable"), FieldName::from("burnable") });
    if what & 1 != 0 {
        s.annotate(sub, item.clone(), SUPPL_ANNOT_IFACE_CLASS, &class).sut("annotate")?;
    }
    if what & 2 != 0 {
        s.annotate(sub, item.clone(), SUPPL_ANNOT_IFACE_FEATURES, &features).sut("annotate")?;
    }
    let mut kit = Kit::default();
    kit.supplements.push(s).sut("push")?;
    stock.import_kit(kit.validate().map_err(|(s, _)| s).sut("kit")?).sut("import_kit")?;
    let right = sub == SupplSub::Itself && item == SupplItem::Default;
    let mut n = 0;
    for info in stock.ifaces().sut("ifaces")? {
        n += 1;
        let mine = info.id == to && right;
        let want = (mine && what & 1 != 0).then(|| class.clone());
        ensure!(info.standard == want, "class", "interface {} has class {:?}", info.name, info.standard);
        let want = if mine && what & 2 != 0 { features.clone() } else { FeatureList::default() };
        ensure!(info.features == want, "features", "interface {} has features {:?}", info.name, info.features);
        let iface = stock.iface(info.id).sut("iface")?;
        ensure!(info.name == iface.name && info.version == iface.version && info.developer == iface.developer, "iface-info", "information about {} is of another interface", info.name);
        ensure!(info.default_op == iface.default_operation && info.created_at.timestamp() == iface.timestamp, "iface-info", "information about {} is of another interface", info.name);
    }
    ensure!(n == 2, "iface-number", "{n} interfaces are listed");
    ctx.outcome(if right { "class-read" } else { "class-unrelated" });
    Ok(())
}

/// Hints given to the allocator of outputs.
fn velocity(ctx: &Ctx, root: Root, hints: [Option<VelocityHint>; 4], second: bool, sub: SupplSub) -> R {
    let mut w = root.build(1)?;
    let c0 = w.contracts[0];
    let subject = *w.contracts.get(second as usize).unwrap_or(&c0);
    let mut s = Supplement::new(subject, signer(0));
    let alpha = [OS_ASSET, OS_BONUS, OS_RIGHT, OS_TOKEN];
    let beta = [B_ASSET, B_RIGHT, OS_RIGHT, OS_TOKEN];
    let types = if subject == c0 { alpha } else { beta };
    for (ty, h) in types.iter().zip(hints) {
        if let Some(h) = h {
            s.annotate(sub, SupplItem::TypeNo(ty.to_inner()), SUPPL_ANNOT_VELOCITY, &h).sut("annotate")?;
        }
    }
    let mut kit = Kit::default();
    kit.supplements.push(s).sut("push")?;
    w.wallets[0].stock.import_kit(kit.validate().map_err(|(s, _)| s).sut("kit")?).sut("import_kit")?;
    let (inv, _) = w.invoice(0, c0, Ben::Vout(OP), &Val::Asset(5))?;
    let prev: Vec<XOutputSeal> = w.wallets[0].coins.iter().map(|o| oseal(OP, *o)).collect();
    let asked = RefCell::new(BTreeMap::<(ContractId, AssignmentType), BTreeSet<u8>>::new());
    let n = RefCell::new(0u64);
    let seq = || {
        *n.borrow_mut() += 1;
        *n.borrow()
    };
    w.wallets[0]
        .stock
        .compose_deterministic(
            &inv,
            prev,
            OP,
            Some(Vout::from_u32(2)),
            0,
            |c, ty, h| {
                asked.borrow_mut().entry((c, ty)).or_default().insert(h as u8);
                Some(Vout::from_u32(1))
            },
            |_, _| blinding(seq()),
            |_, _| seq(),
        )
        .sut("compose")?;
    let asked = asked.into_inner();
    ensure!(!asked.is_empty(), "allocator", "allocator was not asked");
    for ((c, ty), got) in asked {
        let place = types.iter().position(|t| *t == ty).filter(|_| c == subject && sub == SupplSub::Assignment);
        let want = place.and_then(|i| hints[i]).unwrap_or_default() as u8;
        ensure!(got.iter().eq([&want]), "velocity", "allocator of {ty} in {c} is told {got:?} instead of {want}");
        ctx.outcome(format!("hint-{want}"));
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let fills = [Fill::Empty, Fill::Names(254), Fill::Items(254)];
    explore(ctx, &Annotating { puts: puts(true) }, &[Fill::Empty], 2);
    let narrow = Annotating { puts: puts(false) };
    explore(ctx, &narrow, &[Fill::Empty, Fill::Names(3)], if ctx.thorough { 4 } else { 3 });
    explore(ctx, &narrow, &fills, 2);
    let keep = Keeping { acts: acts(ctx.thorough) };
    explore(ctx, &keep, &[0, 1], if ctx.thorough { 3 } else { 2 });

    let hints = [
        VelocityHint::Unspecified,
        VelocityHint::Seldom,
        VelocityHint::Episodic,
        VelocityHint::Regular,
        VelocityHint::Frequent,
        VelocityHint::HighFrequency,
    ];
    let all: Vec<u8> = (0..=255).collect();
    ctx.run(&all, |v| format!("hint|{v}"), |v, k| {
        ctx.state(k);
        ctx.step();
        let got = VelocityHint::with_value(v);
        let want = hints.iter().copied().find(|h| *h as u8 >= *v).expect("the last one is the highest");
        ensure!(got == want, "hint", "value {v} gives {got} instead of {want}");
        Ok(())
    });
    let mut cases = vec![];
    for sub in SUBS {
        for item in items() {
            for what in 0..4 {
                for other in [false, true] {
                    cases.push((sub, item.clone(), what, other));
                }
            }
        }
    }
    ctx.run(&cases, |c| format!("info|{c:?}"), |(sub, item, what, other), k| {
        ctx.state(k);
        ctx.step();
        iface_info(ctx, *sub, item.clone(), *what, *other)
    });
    let mut cases = vec![];
    let few = [None, Some(VelocityHint::Seldom), Some(VelocityHint::HighFrequency)];
    for root in [Root::Kinds, Root::Shared] {
        for second in [false, true] {
            for h in 0..if ctx.thorough { 81 } else { 27 } {
                let pick = |d: u32| few[h / 3usize.pow(d) % 3];
                cases.push((root, [pick(0), pick(1), pick(2), pick(3)], second, SupplSub::Assignment));
            }
            for h in hints {
                cases.push((root, [Some(h); 4], second, SupplSub::Assignment));
            }
            for sub in SUBS {
                cases.push((root, [Some(VelocityHint::Regular); 4], second, sub));
            }
        }
    }
    ctx.run(&cases, |c| format!("velocity|{c:?}"), |(root, h, second, sub), k| {
        ctx.state(k);
        ctx.step();
        velocity(ctx, *root, *h, *second, *sub)
    });
    ctx.finish(
        "model_checking",
        "all sequences of annotations over parts, items, names and data (also at the limits of size) up to the depth, read back at every place after each; all sequences of imports of supplements and signatures by kit and by contract and of trust changes up to the depth, compared with the set of imported items; all placements of the annotations the library reads itself",
        &["which of several signatures of one signer for one content is kept is left open", "at most ten signatures per content are kept, so fewer are used", "which of several supplements of one content is exported or used is left open"],
    )
}
