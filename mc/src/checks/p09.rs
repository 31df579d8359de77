//! Merging of differently concealed copies: all patterns of disclosure of
//! operations, bundles and witnesses, in pairs and triples.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::Vout;
use commit_verify::{mpc, CommitId, Conceal};
use rgbstd::containers::{AnchorSet, PubWitness, XPubWitness};
use rgbstd::vm::WitnessOrd;
use rgbstd::*;
use strict_encoding::{StrictDumb, StrictEncode, StrictWriter};

use crate::core::{guard, silence, Ctx, Sut, R};
use crate::lab::*;

/// Disclosure of an assignment: 1 hides the seal, 2 hides the state.
type Pattern = Vec<u8>;

fn assign<S: ExposedState, L: ExposedSeal>(seal: XChain<L>, state: S, p: u8) -> Assign<S, L> {
    let lock = Default::default();
    match p {
        0 => Assign::Revealed { seal, state, lock },
        1 => Assign::ConfidentialSeal { seal: seal.conceal(), state, lock },
        2 => Assign::ConfidentialState { seal, state: state.conceal(), lock },
        _ => Assign::Confidential { seal: seal.conceal(), state: state.conceal(), lock },
    }
}

/// Kinds of state of the assignments, grouped by type.
#[derive(Clone, Debug)]
struct Shape(Vec<(Kind, usize)>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Right,
    Amount,
    Data,
    Doc,
}

impl Shape {
    fn len(&self) -> usize { self.0.iter().map(|x| x.1).sum() }
    fn name(&self) -> String { self.0.iter().map(|(k, n)| format!("{k:?}{n}")).collect::<Vec<_>>().join("+") }
    fn patterns(&self) -> Vec<Pattern> {
        let n = self.len();
        (0..1usize << (2 * n)).map(|m| (0..n).map(|i| (m >> (2 * i) & 3) as u8).collect()).collect()
    }
    fn build<L: ExposedSeal>(&self, seal: impl Fn(u64) -> XChain<L>, p: &Pattern, salt: u64) -> Assignments<L> {
        let mut map = BTreeMap::new();
        let mut i = 0;
        for (t, (kind, n)) in self.0.iter().enumerate() {
            let mut pos = i as u64;
            let mut next = || {
                pos += 1;
                pos + salt
            };
            let pat = &p[i..i + n];
            let typed = match kind {
                Kind::Right => TypedAssigns::Declarative(
                    Confined::try_from(pat.iter().map(|p| assign(seal(next()), VoidState::default(), *p)).collect::<Vec<_>>())
                        .expect("short"),
                ),
                Kind::Amount => TypedAssigns::Fungible(
                    Confined::try_from(
                        pat.iter()
                            .map(|p| {
                                let n = next();
                                let tag = AssetTag::from([3u8; 32]);
                                assign(seal(n), RevealedValue::with_blinding(n * 10, blinding(n), tag), *p)
                            })
                            .collect::<Vec<_>>(),
                    )
                    .expect("short"),
                ),
                Kind::Data => TypedAssigns::Structured(
                    Confined::try_from(
                        pat.iter()
                            .map(|p| {
                                let n = next();
                                assign(seal(n), RevealedData::with_salt(Allocation::with(n as u32, n), n as u128), *p)
                            })
                            .collect::<Vec<_>>(),
                    )
                    .expect("short"),
                ),
                Kind::Doc => TypedAssigns::Attachment(
                    Confined::try_from(
                        pat.iter()
                            .map(|p| {
                                let n = next();
                                let d = doc_state(n as u8);
                                assign(seal(n), RevealedAttach::with_salt(d.id, d.media_type, n), *p)
                            })
                            .collect::<Vec<_>>(),
                    )
                    .expect("short"),
                ),
            };
            map.insert(AssignmentType::with(100 + t as u16), typed);
            i += n;
        }
        Assignments::from_inner(Confined::try_from(map).expect("short"))
    }
}

fn bytes(x: &impl StrictEncode) -> Vec<u8> {
    let w = StrictWriter::in_memory::<{ u32::MAX as usize }>();
    x.strict_encode(w).expect("serializable").unbox().unconfine()
}

fn gs(n: u64) -> XChain<GenesisSeal> { gseal(OP, bp::Outpoint::new(fund_txid(n), Vout::from_u32(1)), n) }
fn ts(n: u64) -> XChain<GraphSeal> { vseal(OP, n as u32, n) }

fn genesis(s: &Shape, p: &Pattern, salt: u64) -> Genesis {
    Genesis { assignments: s.build(gs, p, salt), ..Genesis::strict_dumb() }
}
fn transition(s: &Shape, p: &Pattern, salt: u64) -> Transition {
    Transition { assignments: s.build(ts, p, salt), ..Transition::strict_dumb() }
}
fn extension(s: &Shape, p: &Pattern, salt: u64) -> Extension {
    Extension { assignments: s.build(gs, p, salt), ..Extension::strict_dumb() }
}

fn join(a: &Pattern, b: &Pattern) -> Pattern { a.iter().zip(b).map(|(a, b)| a & b).collect() }

/// All pairs, and if stated all triples, of copies of one object.
fn laws<T: MergeReveal + Clone + StrictEncode>(
    ctx: &Ctx,
    shape: &Shape,
    triples: bool,
    make: impl Fn(&Pattern) -> T,
    id: impl Fn(&T) -> String,
) -> R {
    let pats = shape.patterns();
    let all: Vec<(T, Vec<u8>)> = pats.iter().map(|p| (make(p), bytes(&make(p)))).collect();
    let at = |p: &Pattern| p.iter().enumerate().map(|(i, x)| (*x as usize) << (2 * i)).sum::<usize>();
    let merge = |a: &T, b: &T| guard("merge", || a.clone().merge_reveal(b.clone()).sut("merge"));
    let first = id(&all[0].0);
    for (p, (x, _)) in pats.iter().zip(&all) {
        crate::ensure!(id(x) == first, "concealing-changes-id", "pattern {p:?}");
    }
    for (p, (x, _)) in pats.iter().zip(&all) {
        for (q, (y, _)) in pats.iter().zip(&all) {
            ctx.eval();
            if p != q {
                ctx.distinct(format!("{first}{p:?}{q:?}").as_bytes());
            }
            let m = merge(x, y)?;
            let want = &all[at(&join(p, q))].1;
            crate::ensure!(&bytes(&m) == want, "merge-is-not-union", "{p:?} with {q:?}");
            crate::ensure!(id(&m) == first, "merge-changes-id", "{p:?} with {q:?}");
            ctx.outcome(match (&join(p, q) == p, &join(p, q) == q) {
                (true, true) => "same",
                (true, false) => "first",
                (false, true) => "second",
                (false, false) => "both",
            });
            if triples {
                for (r, (z, _)) in pats.iter().zip(&all) {
                    let l = merge(&merge(x, y)?, z)?;
                    let k = merge(x, &merge(y, z)?)?;
                    let want = &all[at(&join(&join(p, q), r))].1;
                    crate::ensure!(&bytes(&l) == want && &bytes(&k) == want, "merge-is-not-associative", "{p:?}, {q:?}, {r:?}");
                    ctx.eval();
                }
            }
        }
    }
    Ok(())
}

/// Copies of different objects.
fn refused<T: MergeReveal + Clone>(ctx: &Ctx, a: &T, b: &T, what: &str) -> R {
    for (x, y) in [(a, b), (b, a)] {
        ctx.eval();
        let r = guard("merge", || Ok(x.clone().merge_reveal(y.clone()).is_err()))?;
        crate::ensure!(r, "different-merged", "{what}");
        ctx.outcome("refused");
    }
    Ok(())
}

fn operations(ctx: &Ctx) {
    use Kind::*;
    let mut shapes: Vec<(Shape, bool)> = vec![];
    for k in [Right, Amount, Data, Doc] {
        shapes.push((Shape(vec![(k, 1)]), true));
        shapes.push((Shape(vec![(k, 2)]), true));
        for j in [Right, Amount, Data, Doc] {
            shapes.push((Shape(vec![(k, 1), (j, 1)]), ctx.thorough));
            if ctx.thorough {
                shapes.push((Shape(vec![(k, 2), (j, 1)]), false));
                shapes.push((Shape(vec![(k, 1), (j, 2)]), false));
            }
        }
        shapes.push((Shape(vec![(k, 3)]), false));
    }
    if ctx.thorough {
        shapes.push((Shape(vec![(Right, 1), (Amount, 1), (Data, 1), (Doc, 1)]), false));
        shapes.push((Shape(vec![(Amount, 2), (Data, 2)]), false));
    }
    let cases: Vec<_> = shapes.iter().flat_map(|s| ["genesis", "transition", "extension"].map(|k| (s, k))).collect();
    ctx.run(&cases, |((s, _), k)| format!("{k}|{}", s.name()), |((s, triples), k), _| {
        let triples = &(*triples && (ctx.thorough || *k == "transition" || s.len() < 2));
        let zero = vec![0; s.len()];
        match *k {
            "genesis" => {
                laws(ctx, s, *triples, |p| genesis(s, p, 0), |x| x.id().to_string())?;
                for p in s.patterns().iter() {
                    refused(ctx, &genesis(s, &zero, 0), &genesis(s, p, 5), "other assignments")?;
                    let mut x = genesis(s, p, 0);
                    x.timestamp += 1;
                    refused(ctx, &genesis(s, &zero, 0), &x, "other time")?;
                }
            }
            "transition" => {
                laws(ctx, s, *triples, |p| transition(s, p, 0), |x| x.id().to_string())?;
                for p in s.patterns().iter() {
                    refused(ctx, &transition(s, &zero, 0), &transition(s, p, 5), "other assignments")?;
                    let mut x = transition(s, p, 0);
                    x.nonce ^= 1;
                    refused(ctx, &transition(s, &zero, 0), &x, "other nonce")?;
                }
            }
            _ => {
                laws(ctx, s, *triples, |p| extension(s, p, 0), |x| x.id().to_string())?;
                for p in s.patterns().iter() {
                    refused(ctx, &extension(s, &zero, 0), &extension(s, p, 5), "other assignments")?;
                    let mut x = extension(s, p, 0);
                    x.nonce ^= 1;
                    refused(ctx, &extension(s, &zero, 0), &x, "other nonce")?;
                }
            }
        }
        Ok(())
    });
}

/// Bundles: known transitions are any subset, each disclosed or not.
fn bundles(ctx: &Ctx) {
    let shape = Shape(vec![(Kind::Amount, 1)]);
    let sizes: &[usize] = if ctx.thorough { &[1, 2, 3, 4] } else { &[1, 2, 3] };
    let methods = [OP, TAP];
    let cases: Vec<_> = sizes.iter().flat_map(|n| methods.map(|m| (*n, m))).collect();
    let make = |n: usize, m, known: &[u8], salt: u64| -> TransitionBundle {
        // 0 unknown, 1 concealed, 2 seal disclosed, 3 disclosed
        let mut map = BTreeMap::new();
        let mut ts = BTreeMap::new();
        for i in 0..n {
            let t = |p: u8| transition(&shape, &vec![p], salt + 20 * i as u64);
            let id = t(0).id();
            map.insert(Vout::from_u32(i as u32), id);
            match known[i] {
                0 => {}
                1 => drop(ts.insert(id, t(3))),
                2 => drop(ts.insert(id, t(2))),
                _ => drop(ts.insert(id, t(0))),
            }
        }
        TransitionBundle {
            close_method: m,
            input_map: InputMap::from_inner(Confined::try_from(map).expect("short")),
            known_transitions: Confined::try_from(ts).expect("short"),
        }
    };
    ctx.run(&cases, |(n, m)| format!("bundle|{n}|{}", mtag(*m)), |(n, m), _| {
        let (n, m) = (*n, *m);
        let all: Vec<Vec<u8>> = (0..4usize.pow(n as u32))
            .map(|x| (0..n).map(|i| (x / 4usize.pow(i as u32) % 4) as u8).collect::<Vec<u8>>())
            .filter(|k| k.iter().any(|x| *x != 0))
            .collect();
        let join = |a: &[u8], b: &[u8]| -> Vec<u8> { a.iter().zip(b).map(|(a, b)| *a.max(b)).collect() };
        let merge = |a: &TransitionBundle, b: &TransitionBundle| guard("merge", || a.clone().merge_reveal(b.clone()).sut("merge"));
        let made: BTreeMap<Vec<u8>, TransitionBundle> = all.iter().map(|k| (k.clone(), make(n, m, k, 0))).collect();
        let id = made[&all[0]].bundle_id();
        let triples = n < 3;
        for (a, x) in &made {
            crate::ensure!(x.bundle_id() == id, "concealing-changes-id", "{a:?}");
            for (b, y) in &made {
                ctx.eval();
                let z = merge(x, y)?;
                if a != b {
                    ctx.distinct(format!("{id}{a:?}{b:?}").as_bytes());
                }
                let want = &made[&join(a, b)];
                crate::ensure!(bytes(&z) == bytes(want), "bundle-merge-is-not-union", "{a:?} with {b:?}");
                crate::ensure!(z.bundle_id() == id, "merge-changes-id", "{a:?} with {b:?}");
                ctx.outcome(format!("known-{}", z.known_transitions.len()));
                if triples {
                    for (c, w) in &made {
                        ctx.eval();
                        let l = merge(&merge(x, y)?, w)?;
                        let k = merge(x, &merge(y, w)?)?;
                        let want = bytes(&made[&join(&join(a, b), c)]);
                        crate::ensure!(bytes(&l) == want && bytes(&k) == want, "bundle-merge-is-not-associative", "{a:?}, {b:?}, {c:?}");
                    }
                }
            }
            // other bundles
            refused(ctx, x, &make(n, m, a, 1000), "bundle of other transitions")?;
            refused(ctx, x, &make(n, if m == OP { TAP } else { OP }, a, 0), "bundle of another method")?;
        }
        Ok(())
    });
}

fn witnesses(ctx: &Ctx) {
    ctx.case("witness", || {
        let mut h = Hist::new(&Root::TwoMethods, 1)?;
        let ops = h.sweep_ops(0)?;
        let txs: Vec<_> = [0, 1, 2].iter().map(|t| Ok(witness(&ops, *t)?.0)).collect::<R<Vec<_>>>()?;
        let forms = |i: usize| [PubWitness::Txid(txs[i].txid()), PubWitness::Tx(txs[i].clone())];
        let show = |w: &XPubWitness| format!("{w:?}");
        for chain in [XChain::<PubWitness>::Bitcoin as fn(PubWitness) -> XPubWitness, XChain::Liquid] {
            for i in 0..3 {
                for a in forms(i) {
                    for b in forms(i) {
                        for c in forms(i) {
                            ctx.eval();
                            let want = show(&chain(forms(i)[(a.tx().is_some() || b.tx().is_some() || c.tx().is_some()) as usize].clone()));
                            let m = |x: XPubWitness, y: XPubWitness| guard("merge", || x.merge_reveal(y).sut("merge"));
                            let (x, y, z) = (chain(a.clone()), chain(b.clone()), chain(c.clone()));
                            let l = m(m(x.clone(), y.clone())?, z.clone())?;
                            let r = m(x, m(y, z)?)?;
                            crate::ensure!(show(&l) == want && show(&r) == want, "witness-merge-is-not-union", "{a:?}, {b:?}, {c:?}");
                            ctx.outcome("witness");
                        }
                    }
                    for j in 0..3 {
                        for b in forms(j) {
                            if j != i {
                                refused(ctx, &chain(a.clone()), &chain(b.clone()), "another transaction")?;
                            }
                            refused(ctx, &XPubWitness::Bitcoin(a.clone()), &XPubWitness::Liquid(b), "another chain")?;
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

/// Anchors of one transaction: any disclosed subset of contracts per method.
fn anchors(ctx: &Ctx) {
    let max = if ctx.thorough { 4 } else { 3 };
    let cases: Vec<(usize, usize)> = (0..=max).flat_map(|o| (0..=max).map(move |t| (o, t))).filter(|(o, t)| o + t > 0).collect();
    ctx.run(&cases, |(o, t)| format!("anchors|{o}|{t}"), |(no, nt), _| {
        let mut w = World::new(1)?;
        for i in 0..*no.max(nt) {
            let mut alloc = vec![];
            if i < *no {
                alloc.push((w.fund(0), OP, Val::Asset(5)));
            }
            if i < *nt {
                alloc.push((w.fund(0), TAP, Val::Asset(6)));
            }
            w.issue(0, if i % 2 == 0 { Sch::Alpha } else { Sch::Beta }, &[], &alloc)?;
        }
        let mut h = Hist::with(w);
        let ops = h.sweep_ops(0)?;
        let (_, fascia) = h.w.broadcast(0, &ops, 0, WitnessOrd::Tentative)?;
        let ids: Vec<mpc::ProtocolId> = h.w.contracts.iter().map(|c| mpc::ProtocolId::from(*c)).collect();
        let full = fascia.anchor;
        // a view: disclosed contracts per method
        let view = |o: usize, t: usize| -> R<AnchorSet> {
            let pick = |m: usize| (0..ids.len()).filter(|i| m & (1 << i) != 0).map(|i| ids[i]).collect::<Vec<_>>();
            let (mut opret, mut tapret) = match full.clone() {
                AnchorSet::Double { tapret, opret } => (Some(opret), Some(tapret)),
                AnchorSet::Opret(o) => (Some(o), None),
                AnchorSet::Tapret(t) => (None, Some(t)),
            };
            if let Some(x) = opret.as_mut() {
                x.mpc_proof.conceal_except(pick(o)).sut("conceal")?;
            }
            if let Some(x) = tapret.as_mut() {
                x.mpc_proof.conceal_except(pick(t)).sut("conceal")?;
            }
            Ok(match (opret.filter(|_| o > 0), tapret.filter(|_| t > 0)) {
                (Some(opret), Some(tapret)) => AnchorSet::Double { tapret, opret },
                (Some(o), None) => AnchorSet::Opret(o),
                (None, Some(t)) => AnchorSet::Tapret(t),
                (None, None) => panic!("empty view"),
            })
        };
        let views: Vec<(usize, usize)> =
            (0..1usize << no).flat_map(|o| (0..1usize << nt).map(move |t| (o, t))).filter(|(o, t)| o + t > 0).collect();
        // what is told by a view
        let told = |a: &AnchorSet| {
            let (o, t) = match a {
                AnchorSet::Double { tapret, opret } => (Some(&opret.mpc_proof), Some(&tapret.mpc_proof)),
                AnchorSet::Opret(o) => (Some(&o.mpc_proof), None),
                AnchorSet::Tapret(t) => (None, Some(&t.mpc_proof)),
            };
            let tell = |b: Option<&mpc::MerkleBlock>| {
                b.map(|b| (b.commit_id(), b.to_known_message_map().into_iter().collect::<BTreeMap<_, _>>()))
            };
            format!("{:?} {:?}", tell(o), tell(t))
        };
        let made = views.iter().map(|(o, t)| Ok(((*o, *t), view(*o, *t)?))).collect::<R<BTreeMap<_, _>>>()?;
        let merge = |a: &AnchorSet, b: &AnchorSet| guard("merge", || a.clone().merge_reveal(b.clone()).sut("merge anchors"));
        let triples = views.len() < 16;
        for (p, x) in &made {
            for (q, y) in &made {
                ctx.eval();
                let z = merge(x, y)?;
                if p != q {
                    ctx.distinct(format!("{}+{}", told(x), told(y)).as_bytes());
                }
                let want = told(&made[&(p.0 | q.0, p.1 | q.1)]);
                crate::ensure!(told(&z) == want, "anchor-merge-is-not-union", "{p:?} with {q:?}: {} instead of {want}", told(&z));
                // each contract known keeps a valid proof
                let blocks = match &z {
                    AnchorSet::Double { tapret, opret } => vec![(0, &opret.mpc_proof), (1, &tapret.mpc_proof)],
                    AnchorSet::Opret(o) => vec![(0, &o.mpc_proof)],
                    AnchorSet::Tapret(t) => vec![(1, &t.mpc_proof)],
                };
                for (m, b) in blocks {
                    for (i, id) in ids.iter().enumerate() {
                        let known = [p.0 | q.0, p.1 | q.1][m] & (1 << i) != 0;
                        crate::ensure!(b.to_merkle_proof(*id).is_ok() == known, "anchor-merge-loses-proof", "{p:?} with {q:?}");
                    }
                }
                ctx.outcome("anchors");
                if triples {
                    for (r, w) in &made {
                        ctx.eval();
                        let want = told(&made[&(p.0 | q.0 | r.0, p.1 | q.1 | r.1)]);
                        let l = told(&merge(&merge(x, y)?, w)?);
                        let k = told(&merge(x, &merge(y, w)?)?);
                        crate::ensure!(l == want && k == want, "anchor-merge-is-not-associative", "{p:?}, {q:?}, {r:?}");
                    }
                }
            }
        }
        // anchors of other transactions with the same contracts
        let (_, other) = witness(&ops, 1)?;
        for (p, x) in &made {
            let same_kind = matches!((x, &other.anchor), (AnchorSet::Double { .. }, _) | (_, AnchorSet::Double { .. }))
                || std::mem::discriminant(x) == std::mem::discriminant(&other.anchor);
            if same_kind {
                ctx.eval();
                let r = guard("merge", || Ok(x.clone().merge_reveal(other.anchor.clone()).is_err()))?;
                crate::ensure!(r, "different-merged", "anchors {p:?} of another transaction");
                ctx.outcome("refused");
            }
        }
        Ok(())
    });
}

pub fn check(ctx: &Ctx) -> i32 {
    let quiet = silence(); // the library warns of each range proof it writes
    operations(ctx);
    bundles(ctx);
    witnesses(ctx);
    anchors(ctx);
    drop(quiet);
    ctx.finish(
        "exploration",
        "operations of each sort with up to four assignments of all kinds of state in every pattern of disclosure; bundles of up to four transitions with every subset known and disclosed; witnesses of all forms; anchors of up to four contracts per closing method with every subset disclosed: all pairs, and triples for up to two assignments (quick: of one kind of state, and of two only in transitions), against the union computed from the patterns; pairs of different objects are refused; non-trivial = distinct pair of copies disclosing different things",
        &["two copies of a transaction carry the same signatures"],
    )
}
