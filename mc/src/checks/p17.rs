//! Extension of interfaces: all pairs of parent and extension over a grid of
//! items, merged by a reference model; consistency of interfaces; derivation
//! of schemata.

use std::collections::BTreeSet;

use amplify::confinement::Confined;
use amplify::num::u24;
use rgbstd::interface::*;
use rgbstd::*;
use strict_encoding::FieldName;

use crate::core::{guard, Ctx, R};
use crate::lab::*;

type Edit = Box<dyn Fn(&mut Iface) + Sync>;

fn occs() -> Vec<Occurrences> {
    vec![
        Occurrences::Once,
        Occurrences::NoneOrOnce,
        Occurrences::NoneOrMore,
        Occurrences::OnceOrMore,
        Occurrences::OnceOrUpTo(3),
    ]
}

fn occ_of(required: bool, multiple: bool) -> Occurrences {
    match (required, multiple) {
        (false, false) => Occurrences::NoneOrOnce,
        (false, true) => Occurrences::NoneOrMore,
        (true, false) => Occurrences::Once,
        (true, true) => Occurrences::OnceOrMore,
    }
}

const MODS: [Modifier; 3] = [Modifier::Abstract, Modifier::Override, Modifier::Final];

/// Declares everything an operation may refer to, unless declared already.
fn declare(i: &mut Iface) {
    if !i.metadata.contains_key(&f(METAS[1])) {
        i.metadata.insert(f(METAS[1]), sem_a()).unwrap();
    }
    if !i.global_state.contains_key(&f(GLOBALS[1])) {
        i.global_state.insert(f(GLOBALS[1]), GlobalIface::none_or_many(sem_a())).unwrap();
    }
    for n in OWNEDS {
        if !i.assignments.contains_key(&f(n)) {
            i.assignments.insert(f(n), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)).unwrap();
        }
    }
    if !i.valencies.contains_key(&f(VALENCIES[1])) {
        i.valencies.insert(f(VALENCIES[1]), ValencyIface { required: false }).unwrap();
    }
    if !i.errors.contains_key(&vn(ERRORS[1])) {
        i.errors.insert(vn(ERRORS[1]), Confined::try_from("msg".to_string()).unwrap()).unwrap();
    }
}

fn plain_transition(modifier: Modifier, optional: bool) -> TransitionIface {
    TransitionIface {
        modifier,
        optional,
        metadata: none!(),
        globals: none!(),
        inputs: none!(),
        assignments: none!(),
        valencies: none!(),
        errors: none!(),
        default_assignment: None,
    }
}

fn plain_extension(modifier: Modifier, optional: bool) -> ExtensionIface {
    ExtensionIface {
        modifier,
        optional,
        metadata: none!(),
        globals: none!(),
        assignments: none!(),
        redeems: none!(),
        valencies: none!(),
        errors: none!(),
        default_assignment: None,
    }
}

fn args(items: &[(&'static str, Occurrences)]) -> ArgMap {
    Confined::from_iter_checked(items.iter().map(|(n, o)| (f(n), o.clone())))
}
fn names(items: &[&'static str]) -> Confined<BTreeSet<FieldName>, 0, 255> {
    Confined::from_iter_checked(items.iter().map(|n| f(n)))
}

/// For every facet of an interface all its options.
fn facets() -> Vec<(&'static str, Vec<(String, Edit)>)> {
    let mut all: Vec<(&'static str, Vec<(String, Edit)>)> = vec![];
    fn none() -> (String, Edit) { ("-".to_string(), Box::new(|_: &mut Iface| {}) as Edit) }

    let mut v = vec![none()];
    for (n, s) in [("a", sem_a()), ("b", sem_b())] {
        v.push((n.into(), Box::new(move |i| drop(i.metadata.insert(f(METAS[1]), s)))));
    }
    all.push(("meta", v));

    let mut v = vec![none()];
    for (n, s) in [("any", None), ("a", Some(sem_a())), ("b", Some(sem_b()))] {
        for required in [false, true] {
            for multiple in [false, true] {
                v.push((
                    format!("{n}{}{}", if required { "!" } else { "?" }, if multiple { "*" } else { "" }),
                    Box::new(move |i| {
                        i.global_state.insert(f(GLOBALS[1]), GlobalIface { sem_id: s, required, multiple }).unwrap();
                        if required {
                            i.genesis.globals.insert(f(GLOBALS[1]), occ_of(required, multiple)).unwrap();
                        }
                    }),
                ));
            }
        }
    }
    all.push(("global", v));

    let mut v = vec![none()];
    for (n, s) in [
        ("any", OwnedIface::Any),
        ("rights", OwnedIface::Rights),
        ("amount", OwnedIface::Amount),
        ("data", OwnedIface::AnyData),
        ("attach", OwnedIface::AnyAttach),
        ("data-a", OwnedIface::Data(sem_a())),
        ("data-b", OwnedIface::Data(sem_b())),
    ] {
        for public in [false, true] {
            for required in [false, true] {
                for multiple in [false, true] {
                    v.push((
                        format!(
                            "{n}{}{}{}",
                            if public { "+" } else { "" },
                            if required { "!" } else { "?" },
                            if multiple { "*" } else { "" }
                        ),
                        Box::new(move |i| {
                            let a = AssignIface { owned_state: s, public, required, multiple };
                            i.assignments.insert(f(OWNEDS[1]), a).unwrap();
                            if required {
                                i.genesis.assignments.insert(f(OWNEDS[1]), occ_of(required, multiple)).unwrap();
                            }
                        }),
                    ));
                }
            }
        }
    }
    all.push(("owned", v));

    let mut v = vec![none()];
    for required in [false, true] {
        v.push((
            if required { "!" } else { "?" }.into(),
            Box::new(move |i| {
                i.valencies.insert(f(VALENCIES[1]), ValencyIface { required }).unwrap();
                if required {
                    i.genesis.valencies.push(f(VALENCIES[1])).unwrap();
                }
            }),
        ));
    }
    all.push(("valency", v));

    let mut v = vec![none()];
    for m in MODS {
        let mut add = |n: String, e: Box<dyn Fn(&mut GenesisIface) + Sync>| {
            v.push((
                format!("{m}:{n}"),
                Box::new(move |i: &mut Iface| {
                    declare(i);
                    i.genesis.modifier = m;
                    e(&mut i.genesis);
                }) as Edit,
            ))
        };
        add("plain".into(), Box::new(|_| {}));
        for o in occs() {
            let p = o.clone();
            add(format!("global{o:?}"), Box::new(move |g| drop(g.globals.insert(f(GLOBALS[1]), p.clone()))));
            let p = o.clone();
            add(format!("owned{o:?}"), Box::new(move |g| drop(g.assignments.insert(f(OWNEDS[1]), p.clone()))));
        }
        add("meta".into(), Box::new(|g| g.metadata.push(f(METAS[1])).unwrap()));
        add("valency".into(), Box::new(|g| g.valencies.push(f(VALENCIES[1])).unwrap()));
        add("error".into(), Box::new(|g| g.errors.push(vn(ERRORS[1])).unwrap()));
    }
    all.push(("genesis", v));

    let mut v = vec![none()];
    for m in MODS {
        for optional in [false, true] {
            let mut add = |n: String, e: Box<dyn Fn(&mut TransitionIface) + Sync>| {
                v.push((
                    format!("{m}{}:{n}", if optional { "?" } else { "" }),
                    Box::new(move |i: &mut Iface| {
                        declare(i);
                        let mut t = plain_transition(m, optional);
                        e(&mut t);
                        i.transitions.insert(f(TRANSITIONS[1]), t).unwrap();
                    }) as Edit,
                ))
            };
            add("plain".into(), Box::new(|_| {}));
            for o in occs() {
                let p = o.clone();
                add(format!("global{o:?}"), Box::new(move |t| t.globals = args(&[(GLOBALS[1], p.clone())])));
                let p = o.clone();
                add(format!("input{o:?}"), Box::new(move |t| t.inputs = args(&[(OWNEDS[1], p.clone())])));
                let p = o.clone();
                add(format!("owned{o:?}"), Box::new(move |t| t.assignments = args(&[(OWNEDS[1], p.clone())])));
            }
            add("meta".into(), Box::new(|t| t.metadata = names(&[METAS[1]])));
            add("valency".into(), Box::new(|t| t.valencies = names(&[VALENCIES[1]])));
            add("error".into(), Box::new(|t| t.errors.push(vn(ERRORS[1])).unwrap()));
            for n in OWNEDS {
                add(
                    format!("default-{n}"),
                    Box::new(move |t| {
                        t.assignments = args(&[(n, Occurrences::OnceOrMore)]);
                        t.default_assignment = Some(f(n));
                    }),
                );
            }
        }
    }
    all.push(("transition", v));

    let mut v = vec![none()];
    for m in MODS {
        for optional in [false, true] {
            let mut add = |n: String, e: Box<dyn Fn(&mut ExtensionIface) + Sync>| {
                v.push((
                    format!("{m}{}:{n}", if optional { "?" } else { "" }),
                    Box::new(move |i: &mut Iface| {
                        declare(i);
                        let mut t = plain_extension(m, optional);
                        e(&mut t);
                        i.extensions.insert(f(EXTENSIONS[1]), t).unwrap();
                    }) as Edit,
                ))
            };
            add("plain".into(), Box::new(|_| {}));
            for o in occs() {
                let p = o.clone();
                add(format!("global{o:?}"), Box::new(move |t| t.globals = args(&[(GLOBALS[1], p.clone())])));
                let p = o.clone();
                add(format!("owned{o:?}"), Box::new(move |t| t.assignments = args(&[(OWNEDS[1], p.clone())])));
            }
            add("meta".into(), Box::new(|t| t.metadata = names(&[METAS[1]])));
            add("valency".into(), Box::new(|t| t.valencies = names(&[VALENCIES[1]])));
            add("redeem".into(), Box::new(|t| t.redeems = names(&[VALENCIES[1]])));
            add("error".into(), Box::new(|t| t.errors.push(vn(ERRORS[1])).unwrap()));
            for n in OWNEDS {
                add(
                    format!("default-{n}"),
                    Box::new(move |t| {
                        t.assignments = args(&[(n, Occurrences::OnceOrMore)]);
                        t.default_assignment = Some(f(n));
                    }),
                );
            }
        }
    }
    all.push(("extension", v));

    let mut v = vec![none()];
    for (n, tr) in [("transition", true), ("extension", false)] {
        v.push((
            n.into(),
            Box::new(move |i| {
                // the parent's operations are abstract, those of an extension override
                let m = i.genesis.modifier;
                let n = if tr { "mainT" } else { "mainE" };
                if tr {
                    i.transitions.insert(f(n), plain_transition(m, false)).unwrap();
                } else {
                    i.extensions.insert(f(n), plain_extension(m, false)).unwrap();
                }
                i.default_operation = Some(f(n));
            }),
        ));
    }
    all.push(("default", v));

    let mut v = vec![none()];
    for n in ["one", "two"] {
        v.push((
            n.into(),
            Box::new(move |i| drop(i.errors.insert(vn(ERRORS[1]), Confined::try_from(n.to_string()).unwrap()))),
        ));
    }
    all.push(("error", v));

    let mut v = vec![none()];
    v.push((
        "transition".into(),
        Box::new(|i| {
            let m = i.genesis.modifier;
            drop(i.transitions.insert(f("both"), plain_transition(m, false)));
        }),
    ));
    v.push((
        "extension".into(),
        Box::new(|i| {
            let m = i.genesis.modifier;
            drop(i.extensions.insert(f("both"), plain_extension(m, false)));
        }),
    ));
    all.push(("name", v));

    let mut v = vec![none()];
    for n in 1..3u8 {
        v.push((
            format!("{n}"),
            Box::new(move |i| {
                let b = i.genesis.modifier as u8;
                for k in 0..n {
                    i.inherits.push(IfaceId::from([b.wrapping_add(10 + k); 32])).unwrap();
                }
            }),
        ));
    }
    all.push(("inherits", v));
    all
}

fn parent_base() -> Iface {
    let mut i = family_iface([1; 7]);
    i.name = "Parent".into();
    i
}
fn ext_base() -> Iface {
    let mut i = family_iface([0; 7]);
    i.name = "Extension".into();
    i.genesis.modifier = Modifier::Override;
    i
}

// The reference model

fn merge_args(p: &mut ArgMap, e: &ArgMap, bad: &mut Vec<String>, what: &str) {
    for (n, o) in e {
        if p.get(n).map(|x| x.min_value() > o.min_value()).unwrap_or(false) {
            bad.push(format!("{what} {n} required less often"));
        }
        drop(p.insert(n.clone(), o.clone()));
    }
}
fn merge_names<T: Ord + Clone>(
    p: &mut Confined<BTreeSet<T>, 0, 255>,
    e: &Confined<BTreeSet<T>, 0, 255>,
) {
    for n in e {
        p.push(n.clone()).expect("few");
    }
}
fn merge_modifier(p: &mut Modifier, e: Modifier, bad: &mut Vec<String>, what: &str) {
    if *p == Modifier::Final {
        bad.push(format!("{what} is final"));
    } else if e == Modifier::Abstract {
        bad.push(format!("{what} is not an override"));
    }
    *p = e;
}
fn merge_default(p: &mut Option<FieldName>, e: &Option<FieldName>, bad: &mut Vec<String>, what: &str) {
    match (p.as_ref(), e) {
        (Some(a), Some(b)) if a != b => bad.push(format!("default of {what} changed")),
        (None, Some(b)) => *p = Some(b.clone()),
        _ => {}
    }
}

/// Optional operations new in the extension are left out on demand.
fn merge(p: &Iface, e: &Iface, lean: bool) -> Result<Iface, Vec<String>> {
    let mut r = p.clone();
    let mut bad = vec![];
    for (n, s) in &e.metadata {
        if p.metadata.get(n).map(|x| x != s).unwrap_or(false) {
            bad.push(format!("metadata {n} of another type"));
        }
        drop(r.metadata.insert(n.clone(), *s));
    }
    for (n, g) in &e.global_state {
        if let Some(x) = p.global_state.get(n) {
            if x.sem_id.is_some() && x.sem_id != g.sem_id {
                bad.push(format!("global {n} of another type"));
            }
            if x.required && !g.required {
                bad.push(format!("global {n} not required any more"));
            }
        }
        drop(r.global_state.insert(n.clone(), g.clone()));
    }
    for (n, a) in &e.assignments {
        if let Some(x) = p.assignments.get(n) {
            let narrower = match (x.owned_state, a.owned_state) {
                (OwnedIface::Any, _) => true,
                (OwnedIface::AnyData, OwnedIface::Data(_)) => true,
                (x, y) => x == y,
            };
            if !narrower {
                bad.push(format!("owned {n} of another type"));
            }
            if x.required && !a.required {
                bad.push(format!("owned {n} not required any more"));
            }
            if x.public && !a.public {
                bad.push(format!("owned {n} not public any more"));
            }
        }
        drop(r.assignments.insert(n.clone(), *a));
    }
    for (n, v) in &e.valencies {
        if p.valencies.get(n).map(|x| x.required && !v.required).unwrap_or(false) {
            bad.push(format!("valency {n} not required any more"));
        }
        drop(r.valencies.insert(n.clone(), v.clone()));
    }
    let g = &mut r.genesis;
    merge_modifier(&mut g.modifier, e.genesis.modifier, &mut bad, "genesis");
    merge_names(&mut g.metadata, &e.genesis.metadata);
    merge_args(&mut g.globals, &e.genesis.globals, &mut bad, "genesis global");
    merge_args(&mut g.assignments, &e.genesis.assignments, &mut bad, "genesis owned");
    merge_names(&mut g.valencies, &e.genesis.valencies);
    merge_names(&mut g.errors, &e.genesis.errors);
    for (n, t) in &e.transitions {
        if p.extensions.contains_key(n) {
            bad.push(format!("{n} is an extension"));
        }
        let Some(x) = p.transitions.get(n) else {
            if t.optional && lean {
                continue;
            }
            drop(r.transitions.insert(n.clone(), t.clone()));
            continue;
        };
        let mut x = x.clone();
        merge_modifier(&mut x.modifier, t.modifier, &mut bad, n.as_str());
        x.optional = x.optional && t.optional;
        merge_names(&mut x.metadata, &t.metadata);
        merge_args(&mut x.globals, &t.globals, &mut bad, "global");
        merge_args(&mut x.inputs, &t.inputs, &mut bad, "input");
        merge_args(&mut x.assignments, &t.assignments, &mut bad, "owned");
        merge_names(&mut x.valencies, &t.valencies);
        merge_names(&mut x.errors, &t.errors);
        merge_default(&mut x.default_assignment, &t.default_assignment, &mut bad, n.as_str());
        drop(r.transitions.insert(n.clone(), x));
    }
    for (n, t) in &e.extensions {
        if p.transitions.contains_key(n) {
            bad.push(format!("{n} is a transition"));
        }
        let Some(x) = p.extensions.get(n) else {
            if t.optional && lean {
                continue;
            }
            drop(r.extensions.insert(n.clone(), t.clone()));
            continue;
        };
        let mut x = x.clone();
        merge_modifier(&mut x.modifier, t.modifier, &mut bad, n.as_str());
        x.optional = x.optional && t.optional;
        merge_names(&mut x.metadata, &t.metadata);
        merge_args(&mut x.globals, &t.globals, &mut bad, "global");
        merge_args(&mut x.assignments, &t.assignments, &mut bad, "owned");
        merge_names(&mut x.redeems, &t.redeems);
        merge_names(&mut x.valencies, &t.valencies);
        merge_names(&mut x.errors, &t.errors);
        merge_default(&mut x.default_assignment, &t.default_assignment, &mut bad, n.as_str());
        drop(r.extensions.insert(n.clone(), x));
    }
    merge_default(&mut r.default_operation, &e.default_operation, &mut bad, "interface");
    for (n, m) in &e.errors {
        drop(r.errors.insert(n.clone(), m.clone()));
    }
    if bad.is_empty() {
        Ok(r)
    } else {
        Err(bad)
    }
}

/// References to what is not declared and other contradictions; names them.
fn contradictions(i: &Iface) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut op = |op: &str,
                  meta: &Confined<BTreeSet<FieldName>, 0, 255>,
                  globals: &ArgMap,
                  owned: &ArgMap,
                  inputs: Option<&ArgMap>,
                  val: &Confined<BTreeSet<FieldName>, 0, 255>,
                  redeems: Option<&Confined<BTreeSet<FieldName>, 0, 255>>,
                  errs: &[String],
                  default: Option<&FieldName>| {
        for n in meta.iter().filter(|n| !i.metadata.contains_key(*n)) {
            v.push((op.to_string(), n.to_string()));
        }
        for (n, o) in globals {
            let bad = match i.global_state.get(n) {
                None => true,
                Some(g) => o.min_value() > 1 && !g.multiple,
            };
            if bad {
                v.push((op.to_string(), n.to_string()));
            }
        }
        for (n, o) in owned.iter().chain(inputs.into_iter().flatten()) {
            let bad = match i.assignments.get(n) {
                None => true,
                Some(a) => o.min_value() > 1 && !a.multiple,
            };
            if bad {
                v.push((op.to_string(), n.to_string()));
            }
        }
        for n in val.iter().chain(redeems.into_iter().flatten()).filter(|n| !i.valencies.contains_key(*n)) {
            v.push((op.to_string(), n.to_string()));
        }
        for n in errs.iter().filter(|n| i.errors.keys().all(|k| k.as_str() != n.as_str())) {
            v.push((op.to_string(), n.to_string()));
        }
        if let Some(n) = default.filter(|n| !owned.contains_key(*n)) {
            v.push((op.to_string(), n.to_string()));
        }
    };
    let strs = |e: &Confined<BTreeSet<strict_encoding::VariantName>, 0, 255>| e.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let g = &i.genesis;
    op("genesis", &g.metadata, &g.globals, &g.assignments, None, &g.valencies, None, &strs(&g.errors), None);
    for (n, t) in &i.transitions {
        op(
            n.as_str(),
            &t.metadata,
            &t.globals,
            &t.assignments,
            Some(&t.inputs),
            &t.valencies,
            None,
            &strs(&t.errors),
            t.default_assignment.as_ref(),
        );
    }
    for (n, t) in &i.extensions {
        op(
            n.as_str(),
            &t.metadata,
            &t.globals,
            &t.assignments,
            None,
            &t.valencies,
            Some(&t.redeems),
            &strs(&t.errors),
            t.default_assignment.as_ref(),
        );
    }
    for n in i.transitions.keys().filter(|n| i.extensions.contains_key(*n)) {
        v.push((String::new(), n.to_string()));
    }
    if let Some(n) = &i.default_operation {
        if !i.transitions.contains_key(n) && !i.extensions.contains_key(n) {
            v.push((String::new(), n.to_string()));
        }
    }
    for (n, x) in &i.global_state {
        if x.required && !g.globals.contains_key(n) {
            v.push((String::new(), n.to_string()));
        }
    }
    for (n, x) in &i.assignments {
        if x.required && !g.assignments.contains_key(n) {
            v.push((String::new(), n.to_string()));
        }
    }
    for (n, x) in &i.valencies {
        if x.required && !g.valencies.contains(n) {
            v.push((String::new(), n.to_string()));
        }
    }
    // TS is the only time used which is neither invalid nor in the future
    if i.timestamp > TS {
        v.push((String::new(), String::new()));
    }
    v
}

fn consistency(i: &Iface) -> R<bool> {
    let want = contradictions(i);
    match guard("check", || Ok(i.check()))? {
        Ok(()) => {
            ensure!(want.is_empty(), "check-unnoticed", "an interface is found consistent despite of {want:?}");
            Ok(true)
        }
        Err(list) => {
            let text: Vec<String> = list.iter().map(|e| e.to_string()).collect();
            ensure!(!want.is_empty(), "check-false-alarm", "a consistent interface is refused: {text:?}");
            for (op, n) in &want {
                ensure!(
                    text.iter().any(|t| (n.is_empty() || t.contains(&format!("'{n}'"))) && t.contains(op.as_str())),
                    "check-unnoticed",
                    "'{n}' of {op} is not reported: {text:?}"
                );
            }
            Ok(false)
        }
    }
}

/// The part of an interface which the model predicts; optional operations new
/// in an extension may be left out.
fn same(got: &Iface, want: &Iface, p: &Iface) -> Result<(), String> {
    macro_rules! cmp {
        ($($f:ident),*) => { $(
            if got.$f != want.$f {
                return Err(format!("{}: {:?} instead of {:?}", stringify!($f), got.$f, want.$f));
            }
        )* }
    }
    cmp!(metadata, global_state, assignments, valencies, genesis, default_operation, errors);
    let mut got = got.clone();
    let mut want = want.clone();
    for (n, t) in want.transitions.clone() {
        if t.optional && !p.transitions.contains_key(&n) && got.transitions.get(&n).map(|x| x == &t).unwrap_or(true) {
            got.transitions.remove(&n).ok();
            want.transitions.remove(&n).ok();
        }
    }
    for (n, t) in want.extensions.clone() {
        if t.optional && !p.extensions.contains_key(&n) && got.extensions.get(&n).map(|x| x == &t).unwrap_or(true) {
            got.extensions.remove(&n).ok();
            want.extensions.remove(&n).ok();
        }
    }
    if got.transitions != want.transitions {
        return Err(format!("transitions: {:?} instead of {:?}", got.transitions, want.transitions));
    }
    if got.extensions != want.extensions {
        return Err(format!("extensions: {:?} instead of {:?}", got.extensions, want.extensions));
    }
    Ok(())
}

fn pair(ctx: &Ctx, p: &Iface, e: &Iface) -> R {
    ctx.distinct(format!("{}+{}", p.iface_id(), e.iface_id()).as_bytes());
    let sound = consistency(p)? & consistency(e)?;
    let want = merge(p, e, false);
    let got = guard("extended", || Ok(p.clone().extended(e.clone(), "Result")))?;
    match (got, want) {
        (Err(list), Err(_)) => {
            ensure!(!list.is_empty(), "silent", "refused without a reason");
            ctx.outcome("refused");
        }
        (Err(list), Ok(_)) => {
            let text: Vec<String> = list.iter().map(|e| e.to_string()).collect();
            fail!("refused", "an extension without conflicts is refused: {text:?}");
        }
        (Ok(_), Err(bad)) => fail!("conflict", "an extension is accepted despite of conflicts: {bad:?}"),
        (Ok(got), Ok(want)) => {
            if let Err(msg) = same(&got, &want, p) {
                fail!("result", "wrong result of the extension, {msg}");
            }
            ensure!(got.name.as_str() == "Result", "name", "the result is called {}", got.name);
            let lineage: BTreeSet<IfaceId> = p
                .inherits
                .iter()
                .chain(&e.inherits)
                .copied()
                .chain([p.iface_id(), e.iface_id()])
                .collect();
            let have: BTreeSet<IfaceId> = got.inherits.iter().copied().collect();
            ensure!(lineage == have, "lineage", "the result inherits {have:?} instead of {lineage:?}");
            let whole = consistency(&got)?;
            ensure!(whole || !sound, "inconsistent", "the result is inconsistent: {:?}", contradictions(&got));
            ctx.outcome("extended");
        }
    }
    Ok(())
}

/// Interface of the given options: `(facet, option)`.
fn make(base: Iface, fs: &[(&'static str, Vec<(String, Edit)>)], opts: &[(usize, usize)]) -> Iface {
    let mut i = base;
    for (a, b) in opts {
        fs[*a].1[*b].1(&mut i);
    }
    i
}

/// More items than fit.
fn overflow(ctx: &Ctx, kind: usize, extra: usize) -> R {
    let fill = |i: &mut Iface, from: usize, to: usize, m: Modifier| {
        for k in from..to {
            let n = FieldName::try_from(format!("n{k}")).expect("valid");
            let v = strict_encoding::VariantName::try_from(format!("v{k}")).expect("valid");
            let ok = match kind {
                0 => i.metadata.insert(n, sem_a()).is_ok(),
                1 => i.global_state.insert(n, GlobalIface::none_or_many(sem_a())).is_ok(),
                2 => i.assignments.insert(n, AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)).is_ok(),
                3 => i.valencies.insert(n, ValencyIface { required: false }).is_ok(),
                4 => i.transitions.insert(n, plain_transition(m, false)).is_ok(),
                5 => i.extensions.insert(n, plain_extension(m, false)).is_ok(),
                6 => i.errors.insert(v, Confined::try_from("msg".to_string()).unwrap()).is_ok(),
                _ => i.inherits.push(IfaceId::from([k as u8; 32])).is_ok(),
            };
            assert!(ok, "fits");
        }
    };
    let mut p = family_iface([0; 7]);
    let mut e = ext_base();
    fill(&mut p, 0, 200, Modifier::Abstract);
    fill(&mut e, 200, 200 + extra, Modifier::Override);
    let total = 200 + extra + if kind == 7 { 2 } else { 0 };
    let got = guard("extended", || Ok(p.clone().extended(e, "Result")))?;
    ensure!(got.is_ok() == (total <= 255), "overflow", "{total} items: {:?}", got.map(|_| ()));
    ctx.outcome(if total <= 255 { "fits" } else { "overflow" });
    Ok(())
}

/// Alterations of a consistent interface for the consistency test.
fn alterations() -> Vec<(String, Edit)> {
    let mut v: Vec<(String, Edit)> = vec![];
    let m = Occurrences::Exactly(2);
    macro_rules! add {
        ($name:expr, |$i:ident| $e:expr) => {
            v.push(($name.to_string(), Box::new(move |$i: &mut Iface| drop($e))))
        };
    }
    for n in [0, 1] {
        add!(format!("undeclare-meta{n}"), |i| i.metadata.remove(&f(METAS[n])));
        add!(format!("undeclare-global{n}"), |i| i.global_state.remove(&f(GLOBALS[n])));
        add!(format!("undeclare-owned{n}"), |i| i.assignments.remove(&f(OWNEDS[n])));
        add!(format!("undeclare-valency{n}"), |i| i.valencies.remove(&f(VALENCIES[n])));
        add!(format!("undeclare-error{n}"), |i| i.errors.remove(&vn(ERRORS[n])));
        add!(format!("single-global{n}"), |i| i.global_state.get_mut(&f(GLOBALS[n])).map(|g| g.multiple = false));
        add!(format!("single-owned{n}"), |i| i.assignments.get_mut(&f(OWNEDS[n])).map(|g| g.multiple = false));
        add!(format!("required-global{n}"), |i| i.global_state.get_mut(&f(GLOBALS[n])).map(|g| g.required = true));
        add!(format!("required-owned{n}"), |i| i.assignments.get_mut(&f(OWNEDS[n])).map(|g| g.required = true));
        add!(format!("required-valency{n}"), |i| i.valencies.get_mut(&f(VALENCIES[n])).map(|g| g.required = true));
        add!(format!("genesis-meta{n}"), |i| i.genesis.metadata.push(f(METAS[n])));
        add!(format!("genesis-global{n}"), |i| i.genesis.globals.insert(f(GLOBALS[n]), Occurrences::Once));
        add!(format!("genesis-owned{n}"), |i| i.genesis.assignments.insert(f(OWNEDS[n]), Occurrences::Once));
        add!(format!("genesis-valency{n}"), |i| i.genesis.valencies.push(f(VALENCIES[n])));
        add!(format!("genesis-error{n}"), |i| i.genesis.errors.push(vn(ERRORS[n])));
        let o = m.clone();
        add!(format!("genesis-globals{n}"), |i| i.genesis.globals.insert(f(GLOBALS[n]), o.clone()));
        let o = m.clone();
        add!(format!("genesis-owneds{n}"), |i| i.genesis.assignments.insert(f(OWNEDS[n]), o.clone()));
        let t = f(TRANSITIONS[n]);
        macro_rules! tr {
            ($name:expr, |$x:ident| $e:expr) => {{
                let t = t.clone();
                add!(format!("transition{n}-{}", $name), |i| i.transitions.get_mut(&t).map(|$x| drop($e)))
            }};
        }
        tr!("meta", |x| x.metadata.push(f(METAS[n])));
        tr!("global", |x| x.globals.insert(f(GLOBALS[n]), Occurrences::Once));
        tr!("owned", |x| x.assignments.insert(f(OWNEDS[n]), Occurrences::Once));
        tr!("input", |x| x.inputs.insert(f(OWNEDS[n]), Occurrences::Once));
        let o = m.clone();
        tr!("globals", |x| x.globals.insert(f(GLOBALS[n]), o.clone()));
        let o = m.clone();
        tr!("owneds", |x| x.assignments.insert(f(OWNEDS[n]), o.clone()));
        let o = m.clone();
        tr!("inputs", |x| x.inputs.insert(f(OWNEDS[n]), o.clone()));
        tr!("valency", |x| x.valencies.push(f(VALENCIES[n])));
        tr!("error", |x| x.errors.push(vn(ERRORS[n])));
        tr!("default", |x| x.default_assignment = Some(f(OWNEDS[n])));
        let t = f(EXTENSIONS[n]);
        macro_rules! ex {
            ($name:expr, |$x:ident| $e:expr) => {{
                let t = t.clone();
                add!(format!("extension{n}-{}", $name), |i| i.extensions.get_mut(&t).map(|$x| drop($e)))
            }};
        }
        ex!("meta", |x| x.metadata.push(f(METAS[n])));
        ex!("global", |x| x.globals.insert(f(GLOBALS[n]), Occurrences::Once));
        ex!("owned", |x| x.assignments.insert(f(OWNEDS[n]), Occurrences::Once));
        let o = m.clone();
        ex!("globals", |x| x.globals.insert(f(GLOBALS[n]), o.clone()));
        let o = m.clone();
        ex!("owneds", |x| x.assignments.insert(f(OWNEDS[n]), o.clone()));
        ex!("valency", |x| x.valencies.push(f(VALENCIES[n])));
        ex!("redeem", |x| x.redeems.push(f(VALENCIES[n])));
        ex!("error", |x| x.errors.push(vn(ERRORS[n])));
        ex!("default", |x| x.default_assignment = Some(f(OWNEDS[n])));
        add!(format!("default-transition{n}"), |i| i.default_operation = Some(f(TRANSITIONS[n])));
        add!(format!("default-extension{n}"), |i| i.default_operation = Some(f(EXTENSIONS[n])));
        add!(format!("undeclare-transition{n}"), |i| i.transitions.remove(&f(TRANSITIONS[n])));
        add!(format!("undeclare-extension{n}"), |i| i.extensions.remove(&f(EXTENSIONS[n])));
    }
    add!("default-state", |i| i.default_operation = Some(f(GLOBALS[0])));
    add!("shared-name", |i| i
        .extensions
        .insert(f(TRANSITIONS[0]), plain_extension(Modifier::Abstract, false)));
    add!("future", |i| i.timestamp = 4_000_000_000);
    add!("no-time", |i| i.timestamp = i64::MAX);
    v
}

type SchemaEdit = (String, &'static str, Box<dyn Fn(&mut Schema) + Sync>, Option<InheritanceFailure>);

fn transition(s: &mut Schema, i: u16) -> Option<&mut TransitionSchema> {
    s.transitions.get_mut(&TransitionType::with(TRANSITION + i))
}
fn extension(s: &mut Schema, i: u16) -> Option<&mut ExtensionSchema> {
    s.extensions.get_mut(&ExtensionType::with(EXTENSION + i))
}
fn genesis(s: &mut Schema, _: u16) -> Option<&mut GenesisSchema> { Some(&mut s.genesis) }

/// Alterations of a schema: name, what is touched, and the failure due.
fn schema_edits() -> Vec<SchemaEdit> {
    use InheritanceFailure as F;
    let mut v: Vec<SchemaEdit> = vec![];
    macro_rules! add {
        ($name:expr, $touch:expr, $fail:expr, |$s:ident| $e:expr) => {
            v.push(($name.to_string(), $touch, Box::new(move |$s: &mut Schema| drop($e)), $fail))
        };
    }
    let g = |i| GlobalStateType::with(GLOBAL + i);
    let o = |i| AssignmentType::with(OWNED + i);
    let w = |i| ValencyType::with(VALENCY + i);
    let t = |i| TransitionType::with(TRANSITION + i);
    let x = |i| ExtensionType::with(EXTENSION + i);
    let gs = |s, n: u32| GlobalStateSchema { reserved: none!(), sem_id: s, max_items: u24::try_from(n).unwrap() };
    for (i, n) in [(0u16, "0"), (2, "2")] {
        let touch: [&'static str; 5] =
            if n == "0" { ["g0", "o0", "v0", "t0", "e0"] } else { ["g2", "o2", "v2", "t2", "e2"] };
        add!(format!("-global{n}"), touch[0], None, |s| s.global_types.remove(&g(i)));
        add!(format!("-owned{n}"), touch[1], None, |s| s.owned_types.remove(&o(i)));
        add!(format!("-valency{n}"), touch[2], None, |s| s.valency_types.remove(&w(i)));
        add!(format!("-transition{n}"), touch[3], None, |s| s.transitions.remove(&t(i)));
        add!(format!("-extension{n}"), touch[4], None, |s| s.extensions.remove(&x(i)));
        let f = Some(F::GlobalStateMismatch(g(i)));
        add!(format!("global{n}-type"), touch[0], f.clone(), |s| s.global_types.insert(g(i), gs(sem_b(), 5)));
        add!(format!("global{n}-max"), touch[0], f, |s| s.global_types.insert(g(i), gs(sem_a(), 6)));
        let f = Some(F::AssignmentTypeMismatch(o(i)));
        add!(format!("owned{n}-rights"), touch[1], f.clone(), |s| s
            .owned_types
            .insert(o(i), OwnedStateSchema::Declarative));
        add!(format!("owned{n}-data"), touch[1], f, |s| s
            .owned_types
            .insert(o(i), OwnedStateSchema::Structured(sem_a())));
        macro_rules! op {
            ($name:expr, $touch:expr, $full:expr, $get:ident) => {
                let full: OpFullType = $full;
                macro_rules! ed {
                    ($nn:expr, $fail:expr, |$y:ident| $e:expr) => {
                        add!(format!("{}-{}", $name, $nn), $touch, $fail, |s| {
                            if let Some($y) = $get(s, i) {
                                drop($e)
                            }
                        })
                    };
                }
                ed!("global-occ", Some(F::OpGlobalStateMismatch(full, g(0))), |y| y
                    .globals
                    .insert(g(0), Occurrences::Exactly(7)));
                ed!("global-new", Some(F::OpGlobalStateMismatch(full, g(1))), |y| y.globals.insert(g(1), Occurrences::Once));
                ed!("global-less", None, |y| y.globals.remove(&g(0)));
                ed!("owned-occ", Some(F::OpAssignmentsMismatch(full, o(0))), |y| y
                    .assignments
                    .insert(o(0), Occurrences::Exactly(7)));
                ed!("owned-new", Some(F::OpAssignmentsMismatch(full, o(1))), |y| y
                    .assignments
                    .insert(o(1), Occurrences::Once));
                ed!("owned-less", None, |y| y.assignments.remove(&o(0)));
                ed!("valency-new", Some(F::OpValencyMismatch(full, w(1))), |y| y.valencies.push(w(1)));
                ed!("valency-less", None, |y| y.valencies.remove(&w(0)));
            };
        }
        op!(format!("transition{n}"), touch[3], OpFullType::StateTransition(t(i)), transition);
        op!(format!("extension{n}"), touch[4], OpFullType::StateExtension(x(i)), extension);
        if n == "0" {
            op!("genesis", "genesis", OpFullType::Genesis, genesis);
        }
        let full = OpFullType::StateTransition(t(i));
        let f = Some(F::OpInputMismatch(full, o(0)));
        add!(format!("transition{n}-input-occ"), touch[3], f, |s| s
            .transitions
            .get_mut(&t(i))
            .map(|y| drop(y.inputs.insert(o(0), Occurrences::Once))));
        let f = Some(F::OpInputMismatch(full, o(1)));
        add!(format!("transition{n}-input-new"), touch[3], f, |s| s
            .transitions
            .get_mut(&t(i))
            .map(|y| drop(y.inputs.insert(o(1), Occurrences::Once))));
        add!(format!("transition{n}-input-less"), touch[3], None, |s| s
            .transitions
            .get_mut(&t(i))
            .map(|y| drop(y.inputs.remove(&o(0)))));
        let full = OpFullType::StateExtension(x(i));
        let f = Some(F::OpRedeemMismatch(full, w(1)));
        add!(format!("extension{n}-redeem-new"), touch[4], f, |s| s
            .extensions
            .get_mut(&x(i))
            .map(|y| drop(y.redeems.push(w(1)))));
        add!(format!("extension{n}-redeem-less"), touch[4], None, |s| s
            .extensions
            .get_mut(&x(i))
            .map(|y| drop(y.redeems.remove(&w(0)))));
    }
    add!("+global", "g9", Some(F::GlobalStateMismatch(g(9))), |s| s.global_types.insert(g(9), gs(sem_a(), 5)));
    add!("+owned", "o9", Some(F::AssignmentTypeMismatch(o(9))), |s| s
        .owned_types
        .insert(o(9), OwnedStateSchema::Declarative));
    add!("+valency", "v9", Some(F::ValencyTypeMismatch(w(9))), |s| s.valency_types.push(w(9)));
    add!("+transition", "t9", Some(F::TransitionTypeMismatch(t(9))), |s| {
        let y = family_schema().transitions.get(&t(0)).unwrap().clone();
        s.transitions.insert(t(9), y)
    });
    add!("+extension", "e9", Some(F::ExtensionTypeMismatch(x(9))), |s| {
        let y = family_schema().extensions.get(&x(0)).unwrap().clone();
        s.extensions.insert(x(9), y)
    });
    v
}

fn derived(ctx: &Ctx, edits: &[&SchemaEdit]) -> R {
    let root = family_schema();
    let mut child = root.clone();
    for e in edits {
        e.2(&mut child);
    }
    ctx.distinct(child.schema_id().to_string().as_bytes());
    let want: Vec<&InheritanceFailure> = edits.iter().filter_map(|e| e.3.as_ref()).collect();
    match guard("check_inheritance", || Ok(child.check_inheritance(&root)))? {
        Ok(()) => {
            ensure!(want.is_empty(), "schema-unnoticed", "a schema is found derived despite of {want:?}");
            ctx.outcome("schema-derived");
        }
        Err(list) => {
            for w in &want {
                ensure!(list.contains(w), "schema-unnoticed", "'{w}' is not reported: {list:?}");
            }
            ensure!(!want.is_empty(), "schema-false-alarm", "a derived schema is refused: {list:?}");
            ctx.outcome("schema-refused");
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let fs = facets();
    type Opts = Vec<(usize, usize)>;
    let mut cases: Vec<(Opts, Opts)> = vec![];
    for (k, (_, opts)) in fs.iter().enumerate() {
        for a in 0..opts.len() {
            for b in 0..opts.len() {
                cases.push((vec![(k, a)], vec![(k, b)]));
            }
        }
    }
    // combinations of facets with some options of each
    let few: Vec<Vec<usize>> = fs
        .iter()
        .map(|(_, o)| {
            let n = o.len();
            let set: BTreeSet<usize> =
                if n <= 4 { (0..n).collect() } else { [0, n / 3, 2 * n / 3, n - 1].into_iter().collect() };
            set.into_iter().collect()
        })
        .collect();
    let combos = |ks: &[usize]| -> Vec<Opts> {
        let mut all: Vec<Opts> = vec![vec![]];
        for k in ks {
            all = all
                .into_iter()
                .flat_map(|o| {
                    few[*k].iter().map(move |x| {
                        let mut o = o.clone();
                        o.push((*k, *x));
                        o
                    })
                })
                .collect();
        }
        all
    };
    for a in 0..fs.len() {
        for b in a + 1..fs.len() {
            let c = combos(&[a, b]);
            for p in &c {
                for e in &c {
                    cases.push((p.clone(), e.clone()));
                }
            }
            if ctx.thorough {
                for d in b + 1..fs.len() {
                    let c = combos(&[a, b, d]);
                    for p in &c {
                        for e in &c {
                            cases.push((p.clone(), e.clone()));
                        }
                    }
                }
            }
        }
    }
    let show = |o: &Opts| {
        let v: Vec<String> = o.iter().map(|(a, b)| format!("{}={}", fs[*a].0, fs[*a].1[*b].0)).collect();
        v.join(",")
    };
    ctx.run(&cases, |(p, e)| format!("extend|{}|{}", show(p), show(e)), |(p, e), k| {
        ctx.state(k);
        ctx.step();
        pair(ctx, &make(parent_base(), &fs, p), &make(ext_base(), &fs, e))
    });

    // several extensions one after another give what the model gives
    let mut chains = vec![];
    for k in 0..fs.len() {
        for a in &few[k] {
            for b in &few[k] {
                for c in &few[k] {
                    chains.push((k, *a, *b, *c));
                }
            }
        }
    }
    ctx.run(
        &chains,
        |(k, a, b, c)| {
            format!("chain|{}|{}|{}|{}", fs[*k].0, fs[*k].1[*a].0, fs[*k].1[*b].0, fs[*k].1[*c].0)
        },
        |(k, a, b, c), key| {
            ctx.state(key);
            ctx.step();
            let p = make(parent_base(), &fs, &[(*k, *a)]);
            let e1 = make(ext_base(), &fs, &[(*k, *b)]);
            let mut e2 = make(ext_base(), &fs, &[(*k, *c)]);
            e2.name = "Second".into();
            ctx.distinct(format!("{}+{}+{}", p.iface_id(), e1.iface_id(), e2.iface_id()).as_bytes());
            let got = guard("inherit", || Ok(Iface::inherit("Result", [p.clone(), e1.clone(), e2.clone()])))?;
            let outcomes: Vec<_> = [false, true]
                .map(|lean| merge(&p, &e1, lean).and_then(|r| merge(&r, &e2, lean)))
                .into_iter()
                .collect();
            match got {
                Err(list) => {
                    let text: Vec<String> = list.iter().map(|x| x.to_string()).collect();
                    ensure!(
                        outcomes.iter().any(|w| w.is_err()),
                        "refused",
                        "extensions without conflicts are refused: {text:?}"
                    );
                    ctx.outcome("chain-refused");
                }
                Ok(got) => {
                    let mut why = vec![];
                    for want in &outcomes {
                        match want {
                            Ok(want) => match same(&got, want, &p) {
                                Ok(()) => why.clear(),
                                Err(msg) => why.push(msg),
                            },
                            Err(bad) => why.push(format!("{bad:?}")),
                        }
                        if why.is_empty() {
                            break;
                        }
                    }
                    ensure!(why.is_empty(), "conflict", "wrong result of two extensions: {why:?}");
                    for i in [&p, &e1, &e2] {
                        ensure!(got.inherits.contains(&i.iface_id()), "lineage", "{} is not an ancestor", i.name);
                    }
                    ctx.outcome("chain-extended");
                }
            }
            Ok(())
        },
    );

    let over: Vec<(usize, usize)> = (0..8).flat_map(|k| [53, 54, 55, 56, 100].map(|n| (k, n))).collect();
    ctx.run(&over, |(k, n)| format!("overflow|{k}|{n}"), |(k, n), _| overflow(ctx, *k, *n));

    let alts = alterations();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..alts.len() {
        sets.push(vec![a]);
        for b in 0..alts.len() {
            if a != b {
                sets.push(vec![a, b]);
            }
            if ctx.thorough {
                for c in b + 1..alts.len() {
                    if a < b {
                        sets.push(vec![a, b, c]);
                    }
                }
            }
        }
    }
    ctx.run(
        &sets,
        |s| format!("check|{}", s.iter().map(|x| alts[*x].0.as_str()).collect::<Vec<_>>().join("|")),
        |s, k| {
            ctx.state(k);
            ctx.step();
            let mut i = family_iface([3; 7]);
            for x in s {
                alts[*x].1(&mut i);
            }
            ctx.distinct(i.iface_id().to_string().as_bytes());
            ctx.outcome(if consistency(&i)? { "consistent" } else { "inconsistent" });
            Ok(())
        },
    );

    let edits = schema_edits();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..edits.len() {
        sets.push(vec![a]);
        for b in 0..edits.len() {
            if edits[a].1 != edits[b].1 {
                sets.push(vec![a, b]);
            }
        }
    }
    ctx.run(
        &sets,
        |s| format!("schema|{}", s.iter().map(|x| edits[*x].0.as_str()).collect::<Vec<_>>().join("|")),
        |s, k| {
            ctx.state(k);
            ctx.step();
            derived(ctx, &s.iter().map(|x| &edits[*x]).collect::<Vec<_>>())
        },
    );

    ctx.finish(
        "exploration",
        "all pairs of options of every facet of a parent and an extending interface, all combinations of few options of two facets (thorough: three), chains of two extensions, all single and paired alterations (thorough: triples) for the consistency test and for derived schemata; non-trivial = interfaces or schemata of distinct content",
        &["a change of multiplicity is not a conflict", "an optional operation new in the extension may be left out of the result", "metadata and validators of operations of derived schemata are not compared"],
    )
}
