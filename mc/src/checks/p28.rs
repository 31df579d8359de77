//! Imports of kits, whole and in parts: what a stock knows afterwards.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display};

use amplify::confinement::Confined;
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::{Contract, Kit};
use rgbstd::interface::*;
use rgbstd::persistence::{ContractStateRead, Stock};
use rgbstd::*;
use strict_encoding::TypeName;
use strict_types::{SemId, TypeLib, TypeSystem};

use crate::core::{guard, Ctx, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum E {
    SchemaA,
    SchemaB,
    Main,
    Lite,
    /// Later version of the interface, having the same name.
    Lite2,
    /// Inherits both of the first interfaces.
    Child,
    ImA,
    ImB,
    ImL,
    ImL2,
    /// Same binding by another developer.
    ImA2,
    ImChild,
    TypesA,
    TypesAll,
    LibA,
    LibB,
}
use E::*;

const ALL: [E; 16] =
    [SchemaA, SchemaB, Main, Lite, Lite2, Child, ImA, ImB, ImL, ImL2, ImA2, ImChild, TypesA, TypesAll, LibA, LibB];

fn ifaces() -> [(E, Iface); 4] {
    let x = fx();
    let (li, _) = lite();
    let li2 = Iface { timestamp: li.timestamp + 1000, ..li.clone() };
    let child = Iface {
        name: "LabChild".into(),
        inherits: Confined::from_checked(vec![li.iface_id(), x.iface.iface_id()]),
        ..x.iface.clone()
    };
    [(Main, x.iface.clone()), (Lite, li), (Lite2, li2), (Child, child)]
}
fn iface_of(e: E) -> Iface { ifaces().into_iter().find(|i| i.0 == e).expect("interface").1 }

fn schemata() -> [(E, Schema); 2] { [(SchemaA, fx().alpha.clone()), (SchemaB, fx().beta.clone())] }

/// Implementations with the schema and interface they bind.
fn iimpls() -> [(E, E, E, IfaceImpl); 6] {
    let x = fx();
    let (_, lm) = lite();
    let lm2 = IfaceImpl { iface_id: iface_of(Lite2).iface_id(), ..lm.clone() };
    let a2 = IfaceImpl { developer: "Other <o@lab.org>".parse().expect("identity"), ..x.aimpl.clone() };
    let ch = IfaceImpl { iface_id: iface_of(Child).iface_id(), ..x.aimpl.clone() };
    [
        (ImA, SchemaA, Main, x.aimpl.clone()),
        (ImB, SchemaB, Main, x.bimpl.clone()),
        (ImL, SchemaA, Lite, lm),
        (ImL2, SchemaA, Lite2, lm2),
        (ImA2, SchemaA, Main, a2),
        (ImChild, SchemaA, Child, ch),
    ]
}

fn types_a() -> TypeSystem {
    let x = fx();
    x.types.extract(x.alpha.types().chain(x.iface.types())).expect("fixture types")
}

struct Parts {
    ifaces: [(E, Iface); 4],
    schemata: [(E, Schema); 2],
    iimpls: [(E, E, E, IfaceImpl); 6],
    types_a: TypeSystem,
    iface_ids: BTreeMap<E, IfaceId>,
    contract: Contract,

}

fn parts() -> R<Parts> {
    let w = Root::One(OP).build(1)?;
    let contract = export(&w.wallets[0].stock, w.contracts[0])?;
    let ifaces = ifaces();
    let iface_ids = ifaces.iter().map(|(e, i)| (*e, i.iface_id())).collect();
    Ok(Parts { ifaces, schemata: schemata(), iimpls: iimpls(), types_a: types_a(), iface_ids, contract })
}

impl Parts {
    fn kit(&self, set: &[E]) -> Kit {
        let mut k = Kit::default();
        let x = fx();
        for e in set {
            match e {
                SchemaA | SchemaB => k.schemata.push(self.schemata.iter().find(|s| s.0 == *e).unwrap().1.clone()).expect("few"),
                Main | Lite | Lite2 | Child => k.ifaces.push(self.ifaces.iter().find(|s| s.0 == *e).unwrap().1.clone()).expect("few"),
                ImA | ImB | ImL | ImL2 | ImA2 | ImChild => {
                    k.iimpls.push(self.iimpls.iter().find(|s| s.0 == *e).unwrap().3.clone()).expect("few")
                }
                TypesA => k.types.extend(self.types_a.clone()).expect("few"),
                TypesAll => k.types.extend(x.types.clone()).expect("few"),
                LibA => [&x.alib, &x.acore].into_iter().for_each(|l| k.scripts.push(l.clone()).expect("few")),
                LibB => k.scripts.push(x.blib.clone()).expect("few"),
            }
        }
        k
    }
}

#[derive(Clone, PartialEq, Debug)]
enum A {
    Kit(Vec<E>),
    Contract,
}
impl Display for A {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A::Kit(s) => write!(f, "kit{s:?}"),
            A::Contract => write!(f, "contract"),
        }
    }
}

#[derive(Clone)]
struct Start(Vec<Vec<E>>);
impl Display for Start {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "after{:?}", self.0) }
}

struct S {
    stock: Stock,
    known: BTreeSet<E>,
    contract: bool,
}

struct Kits {
    parts: Parts,
    acts: Vec<A>,
}

// Classes of interfaces are bound to identifiers at compile time.
const MAIN_ID: [u8; 32] = [
    216, 172, 28, 221, 80, 108, 59, 144, 1, 89, 206, 23, 140, 9, 218, 239, 219, 212, 253, 186, 184, 240, 155, 157, 247, 165,
    140, 22, 49, 56, 110, 36,
];

#[derive(Clone, Default)]
struct MainClass;
struct Wrapped<C: ContractStateRead>(ContractIface<C>);
impl<C: ContractStateRead> IfaceWrapper<C> for Wrapped<C> {
    type Info = (ContractId, ImplId);
    fn with(iface: ContractIface<C>) -> Self { Wrapped(iface) }
    fn info(&self) -> Self::Info { (self.0.contract_id(), self.0.iface.impl_id()) }
    fn contract_id(&self) -> ContractId { self.0.contract_id() }
    fn schema_id(&self) -> SchemaId { self.0.schema.schema_id() }
    fn witness_info(&self, witness_id: XWitnessId) -> Option<WitnessInfo> { self.0.witness_info(witness_id) }
}
impl IfaceClass for MainClass {
    const IFACE_NAME: &'static str = "LabAsset";
    const IFACE_IDS: &'static [IfaceId] = &[IfaceId::from_array(MAIN_ID)];
    type Wrapper<C: ContractStateRead> = Wrapped<C>;
    fn stl(&self) -> TypeLib { panic!("not used") }
    fn iface(&self) -> Iface { fx().iface.clone() }
    fn iface_id(&self) -> IfaceId { fx().iface.iface_id() }
}

impl Kits {
    fn fits(&self, s: &S, set: &[E]) -> bool {
        let has = |e: E| s.known.contains(&e) || set.contains(&e);
        self.parts.iimpls.iter().filter(|i| set.contains(&i.0)).all(|i| has(i.1) && has(i.2))
    }

    /// Types and scripts which are known.
    fn covers(&self, s: &S, schema: E, ifaces: &[E]) -> bool {
        let lib = if schema == SchemaA { LibA } else { LibB };
        if !s.known.contains(&lib) {
            return false;
        }
        if s.known.contains(&TypesAll) {
            return true;
        }
        let have = |id: SemId| s.known.contains(&TypesA) && self.parts.types_a.get(id).is_some();
        let sch = &self.parts.schemata.iter().find(|x| x.0 == schema).unwrap().1;
        let ifs = self.parts.ifaces.iter().filter(|i| ifaces.contains(&i.0));
        sch.types().chain(ifs.flat_map(|i| i.1.types())).all(have)
    }

    fn inspect(&self, ctx: &Ctx, s: &S) -> R {
        let p = &self.parts;
        let stock = &s.stock;
        // interfaces
        let known: BTreeMap<IfaceId, &Iface> =
            p.ifaces.iter().filter(|i| s.known.contains(&i.0)).map(|i| (p.iface_ids[&i.0], &i.1)).collect();
        let mut listed = BTreeSet::new();
        for info in stock.ifaces().sut("ifaces")? {
            ensure!(listed.insert(info.id), "ifaces", "interface {} is listed twice", info.name);
            let Some(iface) = known.get(&info.id) else { fail!("ifaces", "unknown interface {} is listed", info.name) };
            ensure!(info.name == iface.name && info.created_at.timestamp() == iface.timestamp, "iface-info", "interface {} is described wrongly", info.name);
            let parents: Vec<IfaceRef> = iface
                .inherits
                .iter()
                .map(|id| known.get(id).map(|i| IfaceRef::Name(i.name.clone())).unwrap_or(IfaceRef::Id(*id)))
                .collect();
            ensure!(info.inherits == parents, "iface-parents", "interface {} is said to inherit {:?}", info.name, info.inherits);
        }
        ensure!(listed.iter().eq(known.keys()), "ifaces", "{} interfaces are listed instead of {}", listed.len(), known.len());
        for (e, iface) in &p.ifaces {
            let id = p.iface_ids[e];
            match stock.iface(id) {
                Ok(i) => {
                    ensure!(known.contains_key(&id), "iface-id", "unknown interface {e:?} is found");
                    ensure!(bytes(i) == bytes(iface), "iface-id", "another interface is found by the identifier of {e:?}");
                }
                Err(_) => ensure!(!known.contains_key(&id), "iface-id", "interface {e:?} is not found by identifier"),
            }
            let named: BTreeSet<IfaceId> = known.iter().filter(|k| k.1.name == iface.name).map(|k| *k.0).collect();
            match stock.iface(iface.name.clone()) {
                Ok(i) => ensure!(named.contains(&i.iface_id()), "iface-name", "a wrong interface is found by the name of {e:?}"),
                Err(_) => ensure!(named.is_empty(), "iface-name", "interface {e:?} is not found by name"),
            }
        }
        // schemata and their implementations
        let mut number = 0;
        let mut have_impl: BTreeSet<(E, E)> = BTreeSet::new();
        for (se, schema) in &p.schemata {
            let id = schema.schema_id();
            let Ok(si) = stock.schema(id) else {
                ensure!(!s.known.contains(se), "schema-id", "schema {se:?} is not found");
                ensure!(stock.export_schema(id).is_err(), "export", "unknown schema is exported");
                continue;
            };
            number += 1;
            ensure!(s.known.contains(se) && bytes(&si.schema) == bytes(schema), "schema-id", "schema {se:?} is another one");
            // every name has one of the implementations imported for it
            let mut cand: BTreeMap<TypeName, Vec<&(E, E, E, IfaceImpl)>> = BTreeMap::new();
            for im in p.iimpls.iter().filter(|i| i.1 == *se && s.known.contains(&i.0)) {
                cand.entry(iface_of(im.2).name).or_default().push(im);
            }
            ensure!(si.iimpls.keys().eq(cand.keys()), "impl-names", "{se:?} is implemented for {:?}", si.iimpls.keys().collect::<Vec<_>>());
            let mut chosen = vec![];
            for (n, list) in &cand {
                let got = &si.iimpls[n];
                let Some(im) = list.iter().find(|im| format!("{:?}", im.3) == format!("{got:?}")) else {
                    fail!("impl", "implementation of {n} by {se:?} is not one of those imported")
                };
                chosen.push(im.2);
                have_impl.insert((*se, im.2));
                let iid = p.iface_ids[&im.2];
                ensure!(si.get(iid).map(|i| i.impl_id()) == Some(got.impl_id()), "impl-get", "implementation of {n} by {se:?} is not found");
                ensure!(si.contains(iid), "impl-get", "implementation of {n} by {se:?} is not found");
            }
            for e in [Main, Lite, Lite2, Child] {
                let has = chosen.contains(&e);
                ensure!(si.contains(p.iface_ids[&e]) == has, "impl-foreign", "{se:?} implements {e:?}: {}", !has);
                ensure!(si.get(p.iface_ids[&e]).is_some() == has, "impl-foreign", "{se:?} implements {e:?}: {}", !has);
                // issuing requires the implementation, types and scripts
                let can = has && s.known.contains(&e) && self.covers(s, *se, &[e]);
                let got = guard("contract_builder", || Ok(stock.contract_builder("ssi:lab".parse::<Identity>().unwrap(), id, p.iface_ids[&e]).is_ok()))?;
                ensure!(got == can, "builder", "contract builder of {se:?} for {e:?} is available: {got}");
                ctx.outcome(if got { "issuable" } else { "not-issuable" });
            }
            let info = stock.schemata().sut("schemata")?.find(|i| i.id == id);
            let Some(info) = info else { fail!("schemata", "schema {se:?} is not listed") };
            ensure!(info.name == schema.name && info.developer == schema.developer && info.created_at.timestamp() == schema.timestamp, "schema-info", "schema {se:?} is described wrongly");
            let told: BTreeMap<TypeName, (IfaceId, ImplId)> =
                info.implements.iter().map(|i| (i.iface_name.clone(), (i.iface_id, i.id))).collect();
            let want: BTreeMap<TypeName, (IfaceId, ImplId)> =
                si.iimpls.iter().map(|(n, i)| (n.clone(), (i.iface_id, i.impl_id()))).collect();
            ensure!(told == want && info.implements.len() == want.len(), "impl-info", "implementations of {se:?} are described wrongly");
            // export of the schema
            let got = guard("export_schema", || Ok(stock.export_schema(id)))?;
            ensure!(got.is_ok() == self.covers(s, *se, &chosen), "export", "schema {se:?} is exported: {}", got.is_ok());
            if let Ok(kit) = got {
                let a: BTreeSet<IfaceId> = kit.ifaces.iter().map(|i| i.iface_id()).collect();
                let b: BTreeSet<IfaceId> = kit.iimpls.iter().map(|i| i.iface_id).collect();
                ensure!(a == b, "export-ifaces", "exported interfaces are not those of the exported implementations");
                ensure!(kit.iimpls.len() == cand.len(), "export-impls", "{} implementations are exported", kit.iimpls.len());
                let mut other = Stock::in_memory();
                other.import_kit(kit).sut("import exported kit")?;
                let b = other.schema(id).sut("schema")?;
                ensure!(bytes_of(b) == bytes_of(si), "export-same", "schema {se:?} is known differently after export");
                ctx.outcome("exported");
            }
        }
        let listed = stock.schemata().sut("schemata")?.count();
        ensure!(listed == number, "schemata", "{listed} schemata are listed instead of {number}");
        // the contract seen through each interface
        let c = p.contract.genesis.contract_id();
        let all: Vec<ContractId> = stock.contracts().sut("contracts")?.map(|c| c.id).collect();
        ensure!(all == if s.contract { vec![c] } else { vec![] }, "contracts", "{} contracts are listed", all.len());
        for e in [Main, Lite, Lite2, Child] {
            let id = p.iface_ids[&e];
            let got = guard("contract_iface", || Ok(stock.contract_iface(c, id)))?;
            let own = have_impl.contains(&(SchemaA, e));
            let ancestors: Vec<IfaceId> =
                if e == Child { [Main, Lite].iter().filter(|a| have_impl.contains(&(SchemaA, **a))).map(|a| p.iface_ids[a]).collect() } else { vec![] };
            let can = s.contract && s.known.contains(&e) && (own || !ancestors.is_empty()) && self.covers(s, SchemaA, &[e]);
            ensure!(got.is_ok() == can, "contract-iface", "contract is seen through {e:?}: {}", got.is_ok());
            if let Ok(ci) = got {
                let via = ci.iface.iface_id;
                ensure!(if own { via == id } else { ancestors.contains(&via) }, "contract-impl", "contract is seen through {e:?} by a wrong implementation");
                ensure!(ci.contract_id() == c && ci.schema.schema_id() == fx().alpha.schema_id(), "contract-iface", "another contract is seen");
                ctx.outcome(if own { "seen" } else { "seen-through-ancestor" });
            }
            let got = guard("transition_builder", || Ok(stock.transition_builder(c, id, Some("transfer")).is_ok()))?;
            let can = s.contract && s.known.contains(&e) && own && self.covers(s, SchemaA, &[e]);
            ensure!(got == can, "transition-builder", "transition builder for {e:?} is available: {got}");
        }
        if IfaceId::from_array(MAIN_ID) == p.iface_ids[&Main] {
            let by: Vec<(ContractId, ImplId)> = stock.contracts_by::<MainClass>().sut("contracts_by")?.collect();
            let want = if s.contract { vec![c] } else { vec![] };
            ensure!(by.iter().map(|b| b.0).eq(want), "contracts-by", "{} contracts of the class are listed", by.len());
            if s.contract {
                let w = stock.contract_iface_class::<MainClass>(c).sut("contract_iface_class")?;
                ensure!(w.0.iface.iface_id == p.iface_ids[&Main] && w.contract_id() == c, "class", "contract is seen through a wrong interface");
                ctx.outcome("class");
            }
        } else {
            ctx.outcome("class-unknown");
        }
        if s.contract {
            let e = export(stock, c)?;
            let schema = stock.schema(fx().alpha.schema_id()).sut("schema")?;
            ensure!(e.ifaces.len() == schema.iimpls.len(), "consign-ifaces", "{} interfaces are exported", e.ifaces.len());
            for (iface, im) in &e.ifaces {
                ensure!(iface.iface_id() == im.iface_id, "consign-pair", "export pairs interface {} with an implementation of another one", iface.name);
                ensure!(schema.iimpls.values().any(|i| i == im), "consign-impls", "unknown implementation is exported");
            }
            e.validate(&Chain::default(), true).map_err(|(s, _)| s).sut("validate exported contract")?;
        }
        Ok(())
    }
}

fn bytes_of(s: &rgbstd::persistence::SchemaIfaces) -> Vec<Vec<u8>> {
    let mut v = vec![bytes(&s.schema)];
    v.extend(s.iimpls.iter().map(|(n, i)| format!("{n} {i:?}").into_bytes()));
    v
}

impl Space for Kits {
    type Root = Start;
    type S = S;
    type A = A;
    fn init(&self, root: &Start) -> R<S> {
        let mut s = S { stock: Stock::in_memory(), known: none!(), contract: false };
        for set in &root.0 {
            s.stock.import_kit(self.parts.kit(set).validate().map_err(|(s, _)| s).sut("kit")?).sut("import_kit")?;
            s.known.extend(set);
        }
        Ok(s)
    }
    fn fork(&self, s: &S) -> S { S { stock: s.stock.clone_no_persistence(), known: s.known.clone(), contract: s.contract } }
    fn actions(&self, _: &S, _: usize) -> Vec<A> { self.acts.clone() }
    fn step(&self, ctx: &Ctx, s: &mut S, a: &A) -> R {
        let before = providers(&s.stock);
        match a {
            A::Kit(set) => {
                let kit = || self.parts.kit(set).validate().map_err(|(s, _)| s).sut("validate kit");
                let valid = kit()?;
                let res = guard("import_kit", || Ok(s.stock.import_kit(valid).is_ok()))?;
                let fits = self.fits(s, set);
                ensure!(res == fits, "import", "kit is imported: {res}");
                if !res {
                    ensure!(providers(&s.stock) == before, "disturbed", "a refused kit changed the stock");
                    ctx.outcome("refused");
                    return Ok(());
                }
                s.known.extend(set);
                let once = providers(&s.stock);
                s.stock.import_kit(kit()?).sut("import_kit again")?;
                ensure!(providers(&s.stock) == once, "again", "the same kit imported again changed the stock");
                ctx.outcome("imported");
            }
            A::Contract => {
                let v = self.parts.contract.clone().validate(&Chain::default(), true).map_err(|(s, _)| s).sut("validate")?;
                s.stock.import_contract(v, &Chain::default()).sut("import_contract")?;
                s.known.extend([SchemaA, Main, ImA, TypesA, LibA]);
                s.contract = true;
                ctx.outcome("contract");
            }
        }
        self.inspect(ctx, s)
    }
    fn canon(&self, s: &S) -> String { format!("{} {:?} {}", hash(&s.stock), s.known, s.contract) }
    fn complete_canon(&self) -> bool { true }
}

fn spaces(ctx: &Ctx) -> R {
    let whole: Vec<E> = ALL.to_vec();
    let base = vec![SchemaA, SchemaB, Main, ImA, ImB, TypesAll, LibA, LibB];
    let mut acts: Vec<A> = ALL.iter().map(|e| A::Kit(vec![*e])).collect();
    for set in [
        vec![],
        vec![SchemaA, Main, ImA, TypesA, LibA],
        vec![SchemaB, Main, ImB, TypesAll, LibB],
        vec![SchemaA, Main, ImA],
        vec![SchemaA, ImA, TypesA],
        vec![Main, ImA, ImB, LibA],
        vec![Lite, ImL],
        vec![Lite, Lite2, ImL2],
        vec![Lite2, ImL2, TypesAll],
        vec![SchemaA, Child, ImChild],
        vec![ImA, ImL, ImB],
        base.clone(),
    ] {
        acts.push(A::Kit(set));
    }
    acts.push(A::Contract);
    let wide = Kits { parts: parts()?, acts };
    let roots = [Start(vec![]), Start(vec![vec![TypesAll], vec![LibA, SchemaA]]), Start(vec![base.clone()]), Start(vec![whole])];
    explore(ctx, &wide, &roots, if ctx.thorough { 3 } else { 2 });
    // all kits made of some parts
    let some = [SchemaA, Main, Lite, ImA, ImL, TypesA, LibA, SchemaB, ImB];
    let some = if ctx.thorough { &some[..] } else { &some[..7] };
    let subsets = (0..1u32 << some.len()).map(|m| A::Kit((0..some.len()).filter(|i| m & (1 << i) != 0).map(|i| some[i]).collect()));
    let sub = Kits { parts: parts()?, acts: subsets.collect() };
    explore(ctx, &sub, &[Start(vec![])], if ctx.thorough { 2 } else { 1 });
    explore(ctx, &sub, &[Start(vec![vec![SchemaA, Lite]]), Start(vec![base])], 1);
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    if let Err(e) = guard("", || spaces(ctx)) {
        ctx.violation("fixture", e);
    }
    ctx.finish(
        "model_checking",
        "all sequences of imports of kits (all single parts, listed combinations, all subsets of some parts) and of a contract up to the depth, from empty, partial and complete stocks; every question about the parts is asked after each",
        &["which of several implementations imported for one schema and one interface name is in effect is left open", "an interface not implemented itself is served by any implemented ancestor"],
    )
}
