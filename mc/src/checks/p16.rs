//! Implementations of an interface: all alterations of a correct binding, and
//! derivation for every ancestor.

use amplify::confinement::Confined;
use rgbstd::interface::*;
use rgbstd::*;

use crate::core::{guard, Ctx, Sut, R};
use crate::lab::*;

/// A binding: name and number of the type, counted from the base of its kind.
type Bind = (&'static str, u16);
type Binds = Vec<Bind>;

/// What is done to one list of bindings; returns the list and its name.
fn variants(names: [&'static str; 2], other: &'static str) -> Vec<(String, Binds)> {
    let (a, b) = (names[0], names[1]);
    let mut v: Vec<(String, Binds)> = vec![("ok".into(), vec![(a, 0), (b, 1)])];
    v.push(("drop-a".into(), vec![(b, 1)]));
    v.push(("drop-b".into(), vec![(a, 0)]));
    v.push(("empty".into(), vec![]));
    v.push(("swap".into(), vec![(a, 1), (b, 0)]));
    v.push(("retarget-a".into(), vec![(a, 2), (b, 1)]));
    v.push(("dangle-a".into(), vec![(a, 9), (b, 1)]));
    v.push(("dangle-b".into(), vec![(a, 0), (b, 9)]));
    v.push(("twice-a".into(), vec![(a, 0), (b, 1), (a, 2)]));
    v.push(("twice-b".into(), vec![(a, 0), (b, 1), (b, 2)]));
    v.push(("thrice-a".into(), vec![(a, 0), (a, 1), (a, 2), (b, 1)]));
    v.push(("twice-a-dangle".into(), vec![(a, 0), (b, 1), (a, 9)]));
    v.push(("rename-b".into(), vec![(a, 0), (other, 1)]));
    v.push(("extra".into(), vec![(a, 0), (b, 1), (other, 2)]));
    v.push(("extra-dangle".into(), vec![(a, 0), (b, 1), (other, 9)]));
    v
}

#[derive(Clone, PartialEq)]
struct Shape {
    lists: [usize; 7],
    ts: usize,
}

const NAMES: [[&str; 2]; 7] = [METAS, GLOBALS, OWNEDS, VALENCIES, TRANSITIONS, EXTENSIONS, ERRORS];
const OTHER: [&str; 7] = ["metaC", "globalC", "ownedC", "valencyC", "transitionC", "extensionC", "errorC"];
const KIND: [&str; 7] = ["meta", "global", "owned", "valency", "transition", "extension", "error"];
const TIMES: [i64; 3] = [TS, 4_000_000_000, i64::MAX];

fn all_variants() -> Vec<Vec<(String, Binds)>> { (0..7).map(|k| variants(NAMES[k], OTHER[k])).collect() }

/// Equality of bindings is wider than their order: collecting a set at once
/// would drop some of them, unlike decoding, which adds them one by one.
fn one_by_one<T: Ord>(items: impl Iterator<Item = T>) -> Confined<std::collections::BTreeSet<T>, 0, 255> {
    let mut set: Confined<std::collections::BTreeSet<T>, 0, 255> = Confined::default();
    for item in items {
        set.push(item).expect("few");
    }
    set
}

fn build(vars: &[Vec<(String, Binds)>], s: &Shape, schema: SchemaId, iface: IfaceId) -> IfaceImpl {
    let b = |k: usize| vars[k][s.lists[k]].1.clone();
    macro_rules! set {
        ($k:expr, $base:expr, $ty:ident) => {
            one_by_one(b($k).into_iter().map(|(n, i)| NamedField::with($ty::with($base + i), f(n))))
        };
    }
    IfaceImpl {
        version: VerNo::V1,
        schema_id: schema,
        iface_id: iface,
        timestamp: TIMES[s.ts],
        metadata: set!(0, META, MetaType),
        global_state: set!(1, GLOBAL, GlobalStateType),
        assignments: set!(2, OWNED, AssignmentType),
        valencies: set!(3, VALENCY, ValencyType),
        transitions: set!(4, TRANSITION, TransitionType),
        extensions: set!(5, EXTENSION, ExtensionType),
        errors: one_by_one(b(6).into_iter().map(|(n, i)| NamedVariant::with(i as u8, vn(n)))),
        developer: Identity::default(),
    }
}

/// Faults of a list of bindings: the kind of fault and the name it is about.
/// Of optional operations and of bindings to names foreign to the interface
/// nothing is required.
fn faults(k: usize, binds: &Binds) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    if k == 6 {
        for (n, _) in binds {
            if !ERRORS.contains(n) {
                v.push(("foreign", *n));
            }
        }
        return v;
    }
    for (i, n) in NAMES[k].iter().enumerate() {
        let optional = i == 1 && (k == 4 || k == 5);
        if !optional && !binds.iter().any(|b| b.0 == *n) {
            v.push(("missing", *n));
        }
    }
    for (i, b) in binds.iter().enumerate() {
        if b.1 > 2 {
            v.push(("dangling", b.0));
        }
        if binds[..i].iter().any(|x| x.0 == b.0) && !v.contains(&("repeated", b.0)) {
            v.push(("repeated", b.0));
        }
    }
    v
}

fn evaluate(ctx: &Ctx, vars: &[Vec<(String, Binds)>], s: &Shape, iface: &Iface, schema: &Schema) -> R {
    let im = build(vars, s, schema.schema_id(), iface.iface_id());
    let got = guard("check", || Ok(im.check(iface, schema)))?;
    let mut want: Vec<(&str, &str, &str)> = vec![];
    for k in 0..7 {
        want.extend(faults(k, &vars[k][s.lists[k]].1).into_iter().map(|(what, n)| (KIND[k], what, n)));
    }
    let bad = !want.is_empty() || s.ts != 0;
    match got {
        Ok(()) => {
            ensure!(!bad, "unnoticed", "implementation is accepted despite of {want:?} and time {}", TIMES[s.ts]);
            ctx.outcome("accepted");
        }
        Err(list) => {
            let text: Vec<String> = list.iter().map(|e| e.to_string()).collect();
            // names foreign to the interface may or may not be reported
            let foreign = (0..6).any(|k| vars[k][s.lists[k]].1.iter().any(|b| b.0 == OTHER[k]));
            // two names for one type may or may not be reported
            let shared = (0..7).any(|k| {
                let b = &vars[k][s.lists[k]].1;
                (0..b.len()).any(|i| b[..i].iter().any(|x| x.1 == b[i].1))
            });
            ensure!(bad || foreign || shared, "false-alarm", "a correct implementation is refused: {text:?}");
            for (k, what, n) in &want {
                let hit = text.iter().any(|t| {
                    t.contains(&format!("'{n}'"))
                        && match *what {
                            "missing" => t.contains("not resolved"),
                            "dangling" => t.contains("unknown schema"),
                            "repeated" => t.contains("repeated"),
                            _ => t.contains("unknown interface error"),
                        }
                });
                ensure!(hit, "unnoticed", "{what} {k} '{n}' is not reported: {text:?}");
            }
            ctx.outcome("refused");
        }
    }
    Ok(())
}

/// Derivation for an ancestor declaring the selected items.
fn derive(ctx: &Ctx, mask: [u8; 7], related: bool) -> R {
    let schema = family_schema();
    let parent = family_iface(mask);
    let mut base = family_iface([3; 7]);
    base.name = "Child".into();
    if related {
        base.inherits = Confined::from_iter_checked([parent.iface_id()]);
    }
    let vars = all_variants();
    let good = Shape { lists: [0; 7], ts: 0 };
    let im = build(&vars, &good, schema.schema_id(), base.iface_id());
    let got = guard("abstracted", || Ok(im.clone().abstracted(&base, &parent)))?;
    let Some(got) = got else {
        ensure!(!related, "not-derived", "no implementation is derived for an ancestor");
        ctx.outcome("unrelated");
        return Ok(());
    };
    ensure!(related, "derived", "an implementation is derived for an interface which is not an ancestor");
    ensure!(got.iface_id == parent.iface_id(), "iface", "the derived implementation is for another interface");
    ensure!(got.schema_id == im.schema_id, "schema", "the derived implementation is for another schema");
    macro_rules! same {
        ($field:ident, $k:expr) => {
            let want: Vec<_> = im
                .$field
                .iter()
                .filter(|x| (0..2).any(|i| mask[$k] & (1 << i) != 0 && x.name.as_str() == NAMES[$k][i]))
                .map(|x| (x.id, x.name.clone()))
                .collect();
            let have: Vec<_> = got.$field.iter().map(|x| (x.id, x.name.clone())).collect();
            ensure!(want == have, "bindings", "{} bound {have:?} instead of {want:?}", KIND[$k]);
        };
    }
    same!(metadata, 0);
    same!(global_state, 1);
    same!(assignments, 2);
    same!(valencies, 3);
    same!(transitions, 4);
    same!(extensions, 5);
    got.check(&parent, &schema).sut("check of the derived implementation")?;
    ctx.outcome("derived");
    Ok(())
}

/// Lookups by name and by number agree with the bindings.
fn lookups(vars: &[Vec<(String, Binds)>], s: &Shape) -> R {
    let schema = family_schema();
    let iface = family_iface([3; 7]);
    let im = build(vars, s, schema.schema_id(), iface.iface_id());
    macro_rules! pair {
        ($k:expr, $base:expr, $ty:ident, $by_name:ident, $by_id:ident) => {
            let binds = &vars[$k][s.lists[$k]].1;
            for n in [NAMES[$k][0], NAMES[$k][1], OTHER[$k]] {
                let want: Vec<_> = binds.iter().filter(|b| b.0 == n).map(|b| $ty::with($base + b.1)).collect();
                let got = im.$by_name(&f(n));
                ensure!(got.is_some() != want.is_empty(), "lookup", "{} by name {n}: {got:?}", KIND[$k]);
                ensure!(got.iter().all(|g| want.contains(g)), "lookup", "{} by name {n}: {got:?}", KIND[$k]);
            }
            for i in [0, 1, 2, 9] {
                let want: Vec<_> = binds.iter().filter(|b| b.1 == i).map(|b| f(b.0)).collect();
                let got = im.$by_id($ty::with($base + i));
                ensure!(got.is_some() != want.is_empty(), "lookup", "{} by number {i}: {got:?}", KIND[$k]);
                ensure!(got.iter().all(|g| want.contains(g)), "lookup", "{} by number {i}: {got:?}", KIND[$k]);
            }
        };
    }
    pair!(0, META, MetaType, meta_type, meta_name);
    pair!(1, GLOBAL, GlobalStateType, global_type, global_name);
    pair!(2, OWNED, AssignmentType, assignments_type, assignment_name);
    pair!(3, VALENCY, ValencyType, valency_type, valency_name);
    pair!(4, TRANSITION, TransitionType, transition_type, transition_name);
    pair!(5, EXTENSION, ExtensionType, extension_type, extension_name);
    let binds = &vars[6][s.lists[6]].1;
    for i in [0u8, 1, 2, 9] {
        let want: Vec<_> = binds.iter().filter(|b| b.1 == i as u16).map(|b| vn(b.0)).collect();
        let got = im.error_name(i);
        ensure!(got.is_some() != want.is_empty() && got.iter().all(|g| want.contains(g)), "lookup", "error {i}: {got:?}");
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let vars = all_variants();
    let n = vars[0].len();
    let mut shapes = vec![];
    for ts in 0..TIMES.len() {
        shapes.push(Shape { lists: [0; 7], ts });
    }
    for a in 0..7 {
        for va in 1..n {
            let mut s = Shape { lists: [0; 7], ts: 0 };
            s.lists[a] = va;
            shapes.push(s.clone());
            for b in a + 1..7 {
                for vb in 1..n {
                    let mut s = s.clone();
                    s.lists[b] = vb;
                    shapes.push(s.clone());
                    if ctx.thorough {
                        for c in b + 1..7 {
                            for vc in 1..n {
                                let mut s = s.clone();
                                s.lists[c] = vc;
                                shapes.push(s);
                            }
                        }
                    }
                }
            }
        }
    }
    let key = |s: &Shape| {
        let l: Vec<String> =
            (0..7).filter(|k| s.lists[*k] != 0).map(|k| format!("{}:{}", KIND[k], vars[k][s.lists[k]].0)).collect();
        format!("check|t{}|{}", s.ts, l.join("|"))
    };
    let (iface, schema) = (family_iface([3; 7]), family_schema());
    ctx.run(&shapes, key, |s, k| {
        ctx.state(k);
        ctx.distinct(build(&vars, s, schema.schema_id(), iface.iface_id()).impl_id().to_string().as_bytes());
        ctx.step();
        evaluate(ctx, &vars, s, &iface, &schema)?;
        lookups(&vars, s)
    });
    let mut masks = vec![];
    for m in 0..4u32.pow(7) {
        let mask: [u8; 7] = std::array::from_fn(|i| ((m >> (2 * i)) & 3) as u8);
        // singles, pairs and so on of kinds are all covered by the thorough tier
        let partial = mask.iter().filter(|x| **x != 3).count();
        if ctx.thorough || partial <= 3 {
            masks.push(mask);
        }
    }
    ctx.run(&masks, |m| format!("derive|{m:?}"), |m, k| {
        ctx.state(k);
        ctx.distinct(family_iface(*m).iface_id().to_string().as_bytes());
        ctx.step();
        derive(ctx, *m, true)
    });
    ctx.run(&[[3u8; 7], [1; 7], [0; 7]], |m| format!("unrelated|{m:?}"), |m, _| derive(ctx, *m, false));
    ctx.finish(
        "exploration",
        "all implementations obtained from a correct one by altering the bindings of one or two kinds (thorough: three) in every listed way, all timestamps of a set, and derivation for all ancestors declaring subsets of the items (quick: subsets other than all for up to three kinds); non-trivial = implementation of distinct content, or distinct ancestor",
        &["an operation the interface calls optional may be left unbound", "names foreign to the interface and two names for one type are not required to be reported", "types of the bound items are not compared: the check under test makes no statement on them"],
    )
}
