//! Depth-bounded exhaustive exploration of action sequences over the real
//! code: every enabled action is tried in every reachable state.

use std::fmt::Display;

use crate::core::{fnv, guard, muted, set_rng, Ctx, R};

pub trait Space: Sync {
    type Root: Display + Sync;
    type S;
    type A: Display + Clone;
    fn init(&self, root: &Self::Root) -> R<Self::S>;
    fn fork(&self, s: &Self::S) -> Self::S;
    /// Actions enabled in the state; the list must depend on the state only.
    fn actions(&self, s: &Self::S, depth: usize) -> Vec<Self::A>;
    /// Performs the action and checks everything the property promises about
    /// the result.
    fn step(&self, ctx: &Ctx, s: &mut Self::S, a: &Self::A) -> R;
    /// Canonical description of a state, for counting distinct states.
    fn canon(&self, s: &Self::S) -> String;
    /// Whether the canonical description determines all further behaviour, so
    /// that a state reached again needs no second visit.
    fn complete_canon(&self) -> bool { false }
}

/// States visited below one first action, with the depth left at the visit.
type Memo = std::collections::HashMap<u64, usize>;

fn apply<M: Space>(ctx: &Ctx, m: &M, s: &mut M::S, a: &M::A, key: &str) -> bool {
    ctx.step();
    set_rng(fnv(key.as_bytes()) ^ ctx.seed);
    match guard("", || m.step(ctx, s, a)) {
        Ok(()) => {
            if guard("", || Ok(ctx.state(&m.canon(s)))).is_err() {
                return false;
            }
            true
        }
        Err(e) => {
            ctx.violation(key, e);
            false
        }
    }
}

fn dfs<M: Space>(ctx: &Ctx, m: &M, s: &M::S, key: &str, depth: usize, max: usize, memo: &mut Memo, leaf: &mut impl FnMut(String)) {
    if ctx.stopped() {
        return;
    }
    if m.complete_canon() {
        let h = fnv(m.canon(s).as_bytes());
        let left = max - depth;
        if memo.get(&h).map(|d| *d >= left).unwrap_or(false) {
            ctx.trace();
            return;
        }
        memo.insert(h, left);
    }
    let acts = if depth < max { m.actions(s, depth) } else { vec![] };
    if acts.is_empty() {
        ctx.trace();
        leaf(key.to_string());
        return;
    }
    for a in acts {
        let k = format!("{key}|{a}");
        let mut n = m.fork(s);
        if apply(ctx, m, &mut n, &a, &k) {
            dfs(ctx, m, &n, &k, depth + 1, max, memo, leaf);
        }
        if ctx.stopped() {
            return;
        }
    }
}

/// Follows one recorded trace.
fn replay<M: Space>(ctx: &Ctx, m: &M, roots: &[M::Root], max: usize, key: &str) {
    for r in roots {
        let rk = r.to_string();
        if key != rk && !key.starts_with(&format!("{rk}|")) {
            continue;
        }
        set_rng(fnv(rk.as_bytes()) ^ ctx.seed);
        ctx.eval();
        let mut s = match guard("", || m.init(r)) {
            Ok(s) => s,
            Err(e) => {
                ctx.violation(&rk, e);
                continue;
            }
        };
        let mut k = rk.clone();
        let mut depth = 0;
        while k != key && depth < max {
            let next = m.actions(&s, depth).into_iter().find(|a| {
                let nk = format!("{k}|{a}");
                key == nk || key.starts_with(&format!("{nk}|"))
            });
            let Some(a) = next else {
                eprintln!("replay: no action continues {k}");
                break;
            };
            k = format!("{k}|{a}");
            eprintln!("replay: {a}");
            if !apply(ctx, m, &mut s, &a, &k) {
                break;
            }
            depth += 1;
        }
    }
}

/// Explores all sequences of at most `max` actions from every root.
pub fn explore<M: Space>(ctx: &Ctx, m: &M, roots: &[M::Root], max: usize) {
    if let Some(only) = ctx.only.clone() {
        return replay(ctx, m, roots, max, &only);
    }
    // Phase 1: each root is expanded to short prefixes, in parallel over the roots.
    let split = max.min(1);
    let work = std::sync::Mutex::new(Vec::<(usize, String)>::new());
    let idx: Vec<usize> = (0..roots.len()).collect();
    ctx.run(&idx, |i| roots[*i].to_string(), |i, _| {
        let r = &roots[*i];
        set_rng(fnv(r.to_string().as_bytes()) ^ ctx.seed);
        let s = m.init(r)?;
        ctx.state(&m.canon(&s));
        for a in m.actions(&s, 0).into_iter().take(if split == 0 { 0 } else { usize::MAX }) {
            work.lock().unwrap().push((*i, a.to_string()));
        }
        Ok(())
    });
    let mut work = work.into_inner().unwrap();
    work.sort();
    // Phase 2: states after the first action.
    let deep = max > 2 && !m.complete_canon();
    let work2 = std::sync::Mutex::new(Vec::<(usize, String, String)>::new());
    ctx.run(&work, |(i, a)| format!("{}|{a}", roots[*i]), |(i, a), k| {
        let mut s = start(ctx, m, &roots[*i])?;
        let act = find(m, &s, 0, a);
        if apply(ctx, m, &mut s, &act, k) {
            if deep {
                let next = m.actions(&s, 1);
                if next.is_empty() {
                    ctx.trace();
                }
                work2.lock().unwrap().extend(next.into_iter().map(|b| (*i, a.clone(), b.to_string())));
            } else {
                below(ctx, m, &s, k, 1, max);
            }
        }
        Ok(())
    });
    let mut work2 = work2.into_inner().unwrap();
    work2.sort();
    // Phase 3: the subtree below every second action.
    ctx.run(&work2, |(i, a, b)| format!("{}|{a}|{b}", roots[*i]), |(i, a, b), k| {
        let mut s = start(ctx, m, &roots[*i])?;
        let act = find(m, &s, 0, a);
        set_rng(fnv(format!("{}|{a}", roots[*i]).as_bytes()) ^ ctx.seed);
        muted(|| m.step(ctx, &mut s, &act))?;
        let act = find(m, &s, 1, b);
        if apply(ctx, m, &mut s, &act, k) {
            below(ctx, m, &s, k, 2, max);
        }
        Ok(())
    });
}

fn start<M: Space>(ctx: &Ctx, m: &M, r: &M::Root) -> R<M::S> {
    set_rng(fnv(r.to_string().as_bytes()) ^ ctx.seed);
    m.init(r)
}

fn find<M: Space>(m: &M, s: &M::S, depth: usize, a: &str) -> M::A {
    m.actions(s, depth).into_iter().find(|x| x.to_string() == a).expect("deterministic actions")
}

fn below<M: Space>(ctx: &Ctx, m: &M, s: &M::S, k: &str, depth: usize, max: usize) {
    let mut n = 0u64;
    dfs(ctx, m, s, k, depth, max, &mut Memo::new(), &mut |key| {
        n += 1;
        if n == 7 {
            ctx.sample(key);
        }
    });
}
