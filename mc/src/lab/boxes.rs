//! Families of kits, contracts and transfers with all parts filled in.

use amplify::confinement::{Confined, NonEmptyOrdMap};
use commit_verify::Conceal;
use rgbstd::containers::*;
use rgbstd::interface::*;
use rgbstd::*;
use strict_encoding::{FieldName, StrictDumb};

use super::*;
use crate::core::R;

/// A second, smaller interface of the first schema.
pub fn lite() -> (Iface, IfaceImpl) {
    let x = fx();
    let mut iface = x.iface.clone();
    iface.name = "LabLite".into();
    iface.metadata = none!();
    let keep = |n: &FieldName| *n == f("asset");
    let assigns: Vec<_> = iface.assignments.iter().filter(|(n, _)| keep(n)).map(|(n, a)| (n.clone(), a.clone())).collect();
    iface.assignments = Confined::try_from_iter(assigns).expect("small");
    let globals: Vec<_> =
        iface.global_state.iter().filter(|(n, _)| **n == f("spec")).map(|(n, a)| (n.clone(), a.clone())).collect();
    iface.global_state = Confined::try_from_iter(globals).expect("small");
    iface.genesis.globals = tiny_bmap! { f("spec") => Occurrences::Once };
    iface.genesis.assignments = tiny_bmap! { f("asset") => Occurrences::NoneOrMore };
    let mut t = iface.transitions.get(&f("transfer")).unwrap().clone();
    t.globals = none!();
    t.inputs = tiny_bmap! { f("asset") => Occurrences::NoneOrMore };
    t.assignments = tiny_bmap! { f("asset") => Occurrences::NoneOrMore };
    iface.transitions = tiny_bmap! { f("transfer") => t };
    let mut iimpl = x.aimpl.clone();
    iimpl.iface_id = iface.iface_id();
    iimpl.metadata = none!();
    iimpl.global_state = tiny_bset! { NamedField::with(GS_SPEC, f("spec")) };
    iimpl.assignments = tiny_bset! { NamedField::with(OS_ASSET, f("asset")) };
    iimpl.transitions = tiny_bset! { NamedField::with(TS_TRANSFER, f("transfer")) };
    (iface, iimpl)
}

/// A supplement with `n` annotations.
pub fn suppl(content: impl Into<ContentRef>, who: &str, time: i64, n: u8) -> Supplement {
    let mut s = Supplement {
        content_id: content.into(),
        timestamp: time,
        creator: who.parse().expect("identity"),
        annotations: none!(),
    };
    if n > 0 {
        s.annotate_itself("Velocity", &Amount::from(n as u64)).expect("annotation");
    }
    if n > 1 {
        s.annotate(SupplSub::Owned, SupplItem::TypeNo(1), "Standard", &Amount::from(n as u64)).expect("annotation");
    }
    s
}

/// Signatures of `n` persons.
pub fn sigs(n: u8) -> ContentSigs {
    let mut s: Option<NonEmptyOrdMap<Identity, SigBlob, 10>> = None;
    for i in 0..n {
        let who: Identity = format!("signer {i}").parse().expect("identity");
        let blob = SigBlob::from(Confined::try_from(vec![i + 1; i as usize + 1]).expect("short"));
        match &mut s {
            None => s = Some(NonEmptyOrdMap::with_key_value(who, blob)),
            Some(s) => drop(s.insert(who, blob)),
        }
    }
    ContentSigs::from(s.expect("not empty"))
}

/// Identities with the characters which text formats give a meaning.
pub const DEVS: [&str; 4] = ["ssi:anonymous", "Dev <dev@lab.org>", "a;b=c:d, e", "-----END RGB KIT-----"];

/// A part of a kit: masks of schemata, implementations and interfaces.
pub fn part_kit(schemata: u32, impls: u32, ifaces: u32) -> Kit {
    let x = fx();
    let (li, lm) = lite();
    let mut k = full_kit();
    let pick = |n: u32, m: u32| m & (1 << n) != 0;
    k.schemata = Confined::from_iter_checked(
        [(0, &x.alpha), (1, &x.beta)].into_iter().filter(|(n, _)| pick(*n, schemata)).map(|s| s.1.clone()),
    );
    k.iimpls = Confined::from_iter_checked(
        [(0, &x.aimpl), (1, &x.bimpl), (2, &lm)].into_iter().filter(|(n, _)| pick(*n, impls)).map(|s| s.1.clone()),
    );
    k.ifaces =
        Confined::from_iter_checked([(0, &x.iface), (1, &li)].into_iter().filter(|(n, _)| pick(*n, ifaces)).map(|s| s.1.clone()));
    k
}

/// Adds supplements and signatures of the first schema, interface and
/// implementation.
pub fn adorn_kit(k: &mut Kit, suppls: u8, signed: u8) {
    let refs: Vec<(ContentRef, ContentId)> = k
        .schemata
        .iter()
        .map(|s| (s.schema_id().into(), ContentId::Schema(s.schema_id())))
        .chain(k.ifaces.iter().map(|s| (s.iface_id().into(), ContentId::Iface(s.iface_id()))))
        .chain(k.iimpls.iter().map(|s| (s.impl_id().into(), ContentId::IfaceImpl(s.impl_id()))))
        .collect();
    for (i, (r, id)) in refs.into_iter().enumerate().take(3) {
        for n in 0..suppls {
            let s = suppl(r, DEVS[n as usize % 4], 1000 + i as i64, n + i as u8);
            if n == 0 && signed > 1 {
                k.signatures.insert(ContentId::Suppl(s.suppl_id()), sigs(signed)).expect("few");
            }
            k.supplements.push(s).expect("few");
        }
        if signed > 0 {
            k.signatures.insert(id, sigs(signed)).expect("few");
        }
    }
}

/// Renames the developers.
pub fn dev_kit(mut k: Kit, dev: &str) -> Kit {
    let dev: Identity = dev.parse().expect("identity");
    k.schemata = Confined::from_iter_checked(k.schemata.into_iter().map(|s| Schema { developer: dev.clone(), ..s }));
    k.ifaces = Confined::from_iter_checked(k.ifaces.into_iter().map(|s| Iface { developer: dev.clone(), ..s }));
    k.iimpls = Confined::from_iter_checked(k.iimpls.into_iter().map(|s| IfaceImpl { developer: dev.clone(), ..s }));
    k
}

pub fn kits(bare: bool) -> Vec<(String, Kit)> {
    let mut v = vec![("empty".to_string(), Kit::default())];
    for (s, m, i) in [(1, 0, 0), (0, 0, 1), (1, 1, 1), (1, 5, 3), (3, 7, 3)] {
        for (n, dev) in DEVS.iter().enumerate() {
            for (sup, sig) in [(0, 0), (1, 0), (0, 1), (2, 2)] {
                let mut k = dev_kit(part_kit(s, m, i), dev);
                adorn_kit(&mut k, sup, sig);
                if bare {
                    k.types = Default::default();
                    k.scripts = none!();
                }
                v.push((format!("kit-{s}{m}{i}-d{n}-s{sup}g{sig}"), k));
            }
        }
    }
    v
}

/// How many of which parts are added to a consignment.
#[derive(Clone, Copy, Debug)]
pub struct Adorn {
    pub ifaces: u8,
    pub terminals: u8,
    pub suppls: u8,
    pub sigs: u8,
    pub files: u8,
    pub extensions: u8,
    pub bare: bool,
}

pub fn adorn<const T: bool>(c: &mut Consignment<T>, a: Adorn) {
    let (li, lm) = lite();
    let x = fx();
    let mut ifaces = vec![(x.iface.clone(), x.aimpl.clone()), (li.clone(), lm.clone())];
    let third = Iface { name: "LabThird".into(), ..li };
    ifaces.push((third.clone(), IfaceImpl { iface_id: third.iface_id(), ..lm }));
    c.ifaces = Confined::from_iter_checked(ifaces.into_iter().take(a.ifaces as usize));
    for n in 0..a.terminals {
        let secret = vseal(OP, n as u32, n as u64).conceal();
        c.terminals.insert(BundleId::from([n + 1; 32]), secret).expect("few");
    }
    for n in 0..a.suppls {
        c.supplements.push(suppl(c.genesis.contract_id(), DEVS[n as usize % 4], 1000, n)).expect("few");
    }
    if a.sigs > 0 {
        c.signatures.insert(ContentId::Genesis(c.genesis.contract_id()), sigs(a.sigs)).expect("few");
    }
    for n in 0..a.files {
        let data = vec![n; n as usize];
        c.attachments.insert(doc_state(n).id, Confined::try_from(data).expect("short")).expect("few");
    }
    for n in 0..a.extensions {
        let e = Extension { contract_id: c.genesis.contract_id(), nonce: n as u64, ..Extension::strict_dumb() };
        c.extensions.push(e).expect("few");
    }
    if a.bare {
        c.types = Default::default();
        c.scripts = none!();
        c.schema = Schema { genesis: Default::default(), ..Schema::strict_dumb() };
    }
}

/// Contracts and transfers of a few histories, with the chain confirming them.
pub fn consignments(root: &Root) -> R<(Vec<(String, Contract)>, Vec<(String, Transfer)>, Chain)> {
    let (mut cs, mut ts) = (vec![], vec![]);
    let mut h = Hist::new(root, 2)?;
    for c in contract_ids(&h.w.wallets[0].stock)? {
        cs.push((format!("{root}-c{}", cs.len()), export(&h.w.wallets[0].stock, c)?));
    }
    let cid = h.w.contracts[0];
    for (ben, method) in [(Ben::Blind(OP), OP), (Ben::Vout(TAP), TAP)] {
        let coins = h.coins(0);
        let p = h.w.pay_deliver(0, 1, cid, &Val::Asset(3), &coins, method, ben)?;
        ts.push((format!("{root}-t{}", ts.len()), h.w.transfer(0, cid, &p.outputs, p.secret)?));
    }
    Ok((cs, ts, h.w.chain))
}
