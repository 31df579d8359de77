//! Identifiers of containers: every byte of every part altered, every element
//! removed, and all containers of the family compared pairwise.

use std::collections::BTreeMap;
use std::sync::Mutex;

use amplify::confinement::Confined;
use rgbstd::containers::*;
use rgbstd::validation::Status;
use strict_types::TypeSystem;
use strict_encoding::{StrictDeserialize, StrictEncode, StrictSerialize, StrictWriter};

use crate::core::{guard, silence, Ctx, R};
use crate::lab::*;

fn enc(x: &impl StrictEncode) -> Vec<u8> {
    let w = StrictWriter::in_memory::<{ u32::MAX as usize }>();
    x.strict_encode(w).expect("serializable").unbox().unconfine()
}

/// Lengths of the parts in the order of their storage.
fn kit_parts(x: &Kit) -> Vec<(&'static str, usize)> {
    vec![
        ("version", enc(&x.version).len()),
        ("ifaces", enc(&x.ifaces).len()),
        ("schemata", enc(&x.schemata).len()),
        ("iimpls", enc(&x.iimpls).len()),
        ("supplements", enc(&x.supplements).len()),
        ("types", enc(&x.types).len()),
        ("scripts", enc(&x.scripts).len()),
        ("signatures", enc(&x.signatures).len()),
    ]
}

fn parts<const T: bool>(x: &Consignment<T>) -> Vec<(&'static str, usize)> {
    vec![
        ("version", enc(&x.version).len()),
        ("transfer", enc(&x.transfer).len()),
        ("terminals", enc(&x.terminals).len()),
        ("genesis", enc(&x.genesis).len()),
        ("extensions", enc(&x.extensions).len()),
        ("bundles", enc(&x.bundles).len()),
        ("schema", enc(&x.schema).len()),
        ("ifaces", enc(&x.ifaces).len()),
        ("supplements", enc(&x.supplements).len()),
        ("types", enc(&x.types).len()),
        ("scripts", enc(&x.scripts).len()),
        ("attachments", enc(&x.attachments).len()),
        ("signatures", enc(&x.signatures).len()),
    ]
}

/// What the validation has to say.
fn verdict(s: &Status) -> Vec<String> {
    s.failures.iter().map(|x| format!("{x:?}")).chain(s.warnings.iter().map(|x| format!("{x:?}"))).collect()
}

type Judge<T> = fn(&T, &Chain) -> Vec<String>;

fn judge<const T: bool>(x: &Consignment<T>, chain: &Chain) -> Vec<String> {
    match x.clone().validate(chain, true) {
        Ok(v) => verdict(v.validation_status()),
        Err((s, _)) => verdict(&s),
    }
}

fn copy(chain: &Mutex<Chain>) -> Chain { chain.lock().expect("lock").clone() }

fn altered<T: StrictSerialize + StrictDeserialize + Clone>(
    ctx: &Ctx,
    x: &T,
    part: &str,
    range: std::ops::Range<usize>,
    id: impl Fn(&T) -> String,
    chain: &Chain,
    judge: Judge<T>,
    types: impl Fn(&T) -> &TypeSystem,
) -> R {
    let differ = |x: &T, y: &T| !types(x).iter().map(|t| t.0).eq(types(y).iter().map(|t| t.0));
    let data = bytes(x);
    let first = id(x);
    let mut said = None;
    let big = !ctx.thorough && matches!(part, "types" | "schema" | "ifaces");
    let masks: &[u8] = if big {
        &[1]
    } else if ctx.thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 128] };
    for at in range {
        for m in masks {
            let mut d = data.clone();
            d[at] ^= m;
            ctx.eval();
            let y = guard("decode", || {
                let d = Confined::try_from(d.clone()).expect("size");
                Ok(T::from_strict_serialized::<{ u32::MAX as usize }>(d).ok())
            })?;
            let Some(y) = y else {
                ctx.outcome("unreadable");
                continue;
            };
            let again = bytes(&y);
            if again == data {
                ctx.outcome("same");
                continue;
            }
            ctx.distinct(&again);
            if part == "types" && !differ(x, &y) {
                // definitions under an unchanged identifier can't be checked
                // without their names, which type systems do not keep
                ctx.outcome("definition");
                continue;
            }
            if guard("id", || Ok(id(&y)))? != first {
                ctx.outcome("other-id");
                continue;
            }
            let said = said.get_or_insert_with(|| judge(x, chain));
            let says = guard("validate", || Ok(judge(&y, chain)))?;
            crate::ensure!(
                says.iter().any(|w| !said.contains(w)),
                format!("id-ignores-{part}"),
                "byte {at} xor {m}: same identifier and same verdict {says:?}"
            );
            ctx.outcome("same-id-detected");
        }
    }
    Ok(())
}

/// Containers which lack one element.
fn without<const T: bool>(x: &Consignment<T>) -> Vec<(String, Consignment<T>)> {
    let mut v = vec![];
    macro_rules! drops {
        ($($f:ident),*) => {$(
            for i in 0..x.$f.len() {
                let mut y = x.clone();
                y.$f = Confined::from_iter_checked(x.$f.clone().into_iter().enumerate().filter(|(n, _)| *n != i).map(|x| x.1));
                v.push((format!("{}{i}", stringify!($f)), y));
            }
        )*};
    }
    drops!(terminals, extensions, bundles, ifaces, supplements, scripts, attachments, signatures);
    v
}

fn kit_without(x: &Kit) -> Vec<(String, Kit)> {
    let mut v = vec![];
    macro_rules! drops {
        ($($f:ident),*) => {$(
            for i in 0..x.$f.len() {
                let mut y = x.clone();
                y.$f = Confined::from_iter_checked(x.$f.clone().into_iter().enumerate().filter(|(n, _)| *n != i).map(|x| x.1));
                v.push((format!("{}{i}", stringify!($f)), y));
            }
        )*};
    }
    drops!(ifaces, schemata, iimpls, supplements, scripts, signatures);
    v
}

fn distinct<T: StrictSerialize>(ctx: &Ctx, all: &[(String, T)], id: impl Fn(&T) -> String) -> R {
    let mut ids: BTreeMap<String, (Vec<u8>, &str)> = BTreeMap::new();
    for (n, x) in all {
        ctx.eval();
        let i = id(x);
        crate::ensure!(i == id(x), "id-unstable", "{n}");
        let b = bytes(x);
        if let Some((old, m)) = ids.get(&i) {
            crate::ensure!(*old == b, "id-shared", "{n} and {m} are {i}");
        }
        ctx.outcome("distinct");
        ids.insert(i, (b, n));
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let quiet = if std::env::var("LOUD").is_ok() { None } else { Some(silence()) };
    let roots: &[Root] =
        if ctx.thorough { &[Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared] } else { &[Root::One(OP), Root::Kinds] };
    let mut cons: Vec<(String, Contract, Mutex<Chain>)> = vec![];
    let mut trs: Vec<(String, Transfer, Mutex<Chain>)> = vec![];
    ctx.case("family", || {
        for root in roots {
            let (cs, ts, chain) = consignments(root)?;
            let plain = Adorn { ifaces: 1, terminals: 0, suppls: 0, sigs: 0, files: 0, extensions: 0, bare: false };
            let plans = [
                ("plain", plain),
                ("rich", Adorn { ifaces: 3, suppls: 2, sigs: 2, files: 3, ..plain }),
                ("bare", Adorn { ifaces: 2, suppls: 2, sigs: 2, files: 3, extensions: 2, terminals: 2, bare: true }),
            ];
            for (p, a) in plans {
                for (n, c) in &cs {
                    let mut c = c.clone();
                    adorn(&mut c, a);
                    cons.push((format!("{n}-{p}"), c, Mutex::new(chain.clone())));
                }
                for (n, c) in &ts {
                    let mut c = c.clone();
                    adorn(&mut c, a);
                    trs.push((format!("{n}-{p}"), c, Mutex::new(chain.clone())));
                }
            }
        }
        Ok(())
    });
    let all_kits: Vec<(String, Kit)> = kits(false).into_iter().chain(kits(true).into_iter().map(|(n, k)| (format!("bare-{n}"), k))).collect();

    // every byte, a part at a time
    let mut work: Vec<(&str, usize, &'static str, std::ops::Range<usize>)> = vec![];
    let mut plan = |kind, i, ps: Vec<(&'static str, usize)>, wanted: &dyn Fn(&str) -> bool| {
        let mut at = 0;
        for (p, n) in ps {
            let mut a = at;
            while wanted(p) && a < at + n {
                work.push((kind, i, p, a..(a + 60).min(at + n)));
                a += 60;
            }
            at += n;
        }
    };
    // what is large and the same everywhere, or needs a valid container to
    // judge upon, is altered in one container
    let big = |p: &str| matches!(p, "types" | "scripts" | "schema" | "schemata" | "ifaces");
    for (i, (n, x, _)) in cons.iter().enumerate() {
        let (bare, one) = (n.ends_with("bare"), n.ends_with("c0-rich") && (ctx.thorough || i < 3));
        plan("contract", i, parts(x), &|p| if big(p) { one } else { bare || ctx.thorough });
    }
    for (i, (n, x, _)) in trs.iter().enumerate() {
        let (bare, one) = (n.ends_with("bare"), n.ends_with("t0-rich") && ctx.thorough);
        plan("transfer", i, parts(x), &|p| if big(p) { one } else { bare || ctx.thorough });
    }
    for (i, (n, x)) in all_kits.iter().enumerate() {
        let (bare, one) = (n.starts_with("bare-kit-153-d1") || ctx.thorough, n == "kit-153-d1-s2g2");
        plan("kit", i, kit_parts(x), &|p| if matches!(p, "types" | "scripts") { one } else { bare });
    }
    ctx.run(&work, |(k, i, p, r)| format!("alter|{k}|{i}|{p}|{}", r.start), |(k, i, p, r), _| match *k {
        "contract" => altered(ctx, &cons[*i].1, p, r.clone(), |x| x.consignment_id().to_string(), &copy(&cons[*i].2), judge::<false>, |x| &x.types),
        "transfer" => altered(ctx, &trs[*i].1, p, r.clone(), |x| x.consignment_id().to_string(), &copy(&trs[*i].2), judge::<true>, |x| &x.types),
        _ => altered(ctx, &all_kits[*i].1, p, r.clone(), |x| x.kit_id().to_string(), &Chain::default(), |_, _| vec![], |x| &x.types),
    });

    // elements removed, and all pairs
    let kinds = ["contract", "transfer", "kit"];
    let small = |n: &str| ctx.thorough || n.contains("bare");
    ctx.run(&kinds, |k| format!("pairs|{k}"), |k, _| match *k {
        "contract" => {
            let mut v: Vec<(String, Contract)> = cons.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
            for (n, x, _) in cons.iter().filter(|x| small(&x.0)) {
                v.extend(without(x).into_iter().map(|(m, y)| (format!("{n} without {m}"), y)));
            }
            for (n, x, _) in &trs {
                v.push((format!("contract of {n}"), x.clone().into_contract()));
            }
            distinct(ctx, &v, |x| x.consignment_id().to_string())
        }
        "transfer" => {
            let mut v: Vec<(String, Transfer)> = trs.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
            for (n, x, _) in trs.iter().filter(|x| small(&x.0)) {
                v.extend(without(x).into_iter().map(|(m, y)| (format!("{n} without {m}"), y)));
            }
            distinct(ctx, &v, |x| x.consignment_id().to_string())?;
            for (n, x, _) in &trs {
                let c = x.clone().into_contract();
                crate::ensure!(c.consignment_id() != x.consignment_id(), "id-shared", "{n} and its contract");
            }
            Ok(())
        }
        _ => {
            let mut v: Vec<(String, Kit)> = all_kits.clone();
            for (n, x) in all_kits.iter().filter(|x| small(&x.0)) {
                v.extend(kit_without(x).into_iter().map(|(m, y)| (format!("{n} without {m}"), y)));
            }
            distinct(ctx, &v, |x| x.kit_id().to_string())
        }
    });
    drop(quiet);
    ctx.finish(
        "exploration",
        "a family of contracts, transfers and kits; every byte of every part altered by two masks (types, schema and interfaces: one; thorough: nine), large parts in one container of each sort, transfers in the thorough tier only, and other parts in those without types and scripts (thorough: in all); every element removed from these; all containers compared pairwise: other content has another identifier, or validation tells the inconsistency of parts bound by their own identifiers; non-trivial = distinct readable container of altered content",
        &["hash functions have no collisions"],
    )
}
