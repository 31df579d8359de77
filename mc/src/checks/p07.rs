//! Crash and I/O failures: every file system call made while an operation is
//! saved is turned into a crash or an error, with partial writes.

use std::collections::BTreeSet;

use nonasync::persistence::CloneNoPersistence;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::Stock;
use rgbstd::vm::WitnessOrd;

use crate::core::{fnv, Ctx, Fail, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

fn load(dir: &Scratch) -> R<Stock> {
    let store = FsBinStore::new(dir.path()).sut("FsBinStore::new")?;
    Stock::load(store, true).sut("Stock::load")
}

struct P07 {
    menu: Menu,
    fine: bool,
}

/// Everything answered by the old stock must still be answered, unless the
/// finished operation answers otherwise.
fn kept(loaded: &Stock, old: &Stock, new: &Stock, q: &Asked, h: &Hist) -> Option<String> {
    let (ids, lines) = match (contract_ids(loaded), crate::core::guard("", || all_lines(loaded))) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return Some(format!("state can't be read: {}", e.detail)),
    };
    let of = |s: &Stock| all_lines(s).map(|l| l.into_iter().collect::<BTreeSet<_>>()).unwrap_or_default();
    let (was, will) = (of(old), of(new));
    for id in contract_ids(old).unwrap_or_default() {
        if !ids.contains(&id) {
            return Some(format!("contract {id} is lost"));
        }
    }
    let lines: BTreeSet<_> = lines.into_iter().collect();
    if let Some(l) = was.iter().find(|l| will.contains(*l) && !lines.contains(*l)) {
        return Some(format!("state {l} is lost"));
    }
    if let Some(l) = lines.iter().find(|l| !will.contains(*l) && !was.contains(*l)) {
        return Some(format!("state {l} appeared"));
    }
    // exports possible before are still possible
    for id in contract_ids(old).unwrap_or_default() {
        if let Err(e) = loaded.export_contract(id) {
            return Some(format!("contract {id} can't be exported: {e}"));
        }
        for o in &q.outpoints {
            if old.transfer(id, [oseal(OP, *o)], None).is_err() || new.transfer(id, [oseal(OP, *o)], None).is_err() {
                continue;
            }
            match loaded.transfer(id, [oseal(OP, *o)], None) {
                Err(e) => return Some(format!("{id} at {o} can't be exported: {e}")),
                Ok(t) => {
                    if let Err((s, _)) = t.validate(&h.w.chain, true) {
                        return Some(format!("{id} at {o} is exported in vain: {s:?}"));
                    }
                }
            }
        }
        for s in &q.secrets {
            let ops = |x: &Stock| x.transfer(id, [], Some(*s)).map(|t| t.bundles.len()).unwrap_or_default();
            if ops(loaded) < ops(old).min(ops(new)) {
                return Some(format!("{id} can't be exported by {s}"));
            }
        }
    }
    let seals = |s: &Stock| {
        use rgbstd::persistence::StashReadProvider;
        s.as_stash_provider().secret_seals().expect("infallible").collect::<BTreeSet<_>>()
    };
    let have = seals(loaded);
    if let Some(x) = seals(old).iter().find(|x| !have.contains(*x)) {
        return Some(format!("seal {x:?} is lost"));
    }
    None
}

/// Where to cut: at every call but a write, and within the data written to a
/// file at the ends and at equal steps, whatever the number of calls the data
/// are written by.
fn cuts(calls: &[FsCall], fine: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = 0;
    while k < calls.len() {
        if !matches!(calls[k], FsCall::Write(_)) {
            v.push((k, 0));
            k += 1;
            continue;
        }
        // consecutive writes
        let lens: Vec<usize> =
            calls[k..].iter().map_while(|c| if let FsCall::Write(n) = c { Some(*n) } else { None }).collect();
        let total: usize = lens.iter().sum();
        let steps = if fine { 32 } else { 2 };
        let mut at: BTreeSet<usize> = (0..=steps).map(|i| total * i / steps).collect();
        if fine {
            at.extend([1.min(total), total.saturating_sub(1)]);
        }
        for a in at {
            let (mut i, mut left) = (0, a);
            while i + 1 < lens.len() && left >= lens[i] {
                left -= lens[i];
                i += 1;
            }
            v.push((k + i, left));
        }
        k += lens.len();
    }
    v
}

/// One operation with a blow at every call.
fn blows(ctx: &Ctx, name: &str, base: &Stock, job: &Job, h: &Hist, q: &Asked, fine: bool) -> R {
    let rng = fnv(name.as_bytes()) ^ ctx.seed;
    let dir = Scratch::new("blow");
    let chain = h.w.chain.clone();
    let mut s = base.clone_no_persistence();
    let store = FsBinStore::new(dir.path()).sut("FsBinStore::new")?;
    s.make_persistent(store, true).sut("make_persistent")?;
    let image = dir.image();
    watch(&dir.path(), None);
    let first = perform(&mut s, job, &chain, rng)?;
    let calls = unwatch();
    if let Err(e) = first {
        return Err(Fail::new("operation-refused", format!("{name}: {e}")));
    }
    let after = s.clone_no_persistence();
    drop(s);
    if let Some(d) = same(&load(&dir)?, &after, q) {
        crate::fail!("loaded-stock-differs", "{name}: the loaded stock {d}");
    }
    ctx.outcome(format!("calls-{}", (calls.len() as f64).log2() as u32));
    let mut seen = BTreeSet::new();
    for (k, part) in cuts(&calls, fine) {
        let call = &calls[k];
        for blow in [Blow::Crash, Blow::Error, Blow::Full] {
            let what = format!("{blow:?} at call {k} of {} ({call:?}, {part} bytes done)", calls.len());
            let tell = |f: Fail| Fail::new(f.sig, format!("{name}, {what}: {}", f.detail));
            ctx.step();
            dir.restore(&image);
            let mut s = load(&dir)?;
            watch(&dir.path(), Some((k, part, blow)));
            let res = perform(&mut s, job, &chain, rng).map_err(tell)?;
            unwatch();
            if blow != Blow::Crash {
                // the same process goes on
                match &res {
                    Ok(()) => {
                        ctx.outcome("survived");
                        if let Some(d) = same(&s, &after, q) {
                            crate::fail!("failure-changes-result", "{name}, {what}: reported as done, but the stock {d}");
                        }
                        if let Some(d) = same(&load(&dir).map_err(tell)?, &after, q) {
                            crate::fail!("unsaved-reported-as-done", "{name}, {what}: reported as done, but the loaded stock {d}");
                        }
                    }
                    Err(_) => ctx.outcome("refused"),
                }
            }
            let mut loaded = load(&dir).map_err(tell)?;
            ctx.distinct(format!("{name}|{}|{blow:?}", hash(&loaded)).as_bytes());
            // equal content needs no second look
            let content = hash(&loaded);
            if !seen.contains(&content) {
                if let Some(d) = kept(&loaded, base, &after, q, h) {
                    crate::fail!("saved-data-lost", "{name}, {what}: {d}");
                }
                seen.insert(content);
            }
            // the operation is repeated, after a restart or without one
            let s = if blow == Blow::Crash { &mut loaded } else { &mut s };
            if let Err(e) = perform(s, job, &chain, rng).map_err(tell)? {
                crate::fail!("retry-refused", "{name}, {what}: the repetition is refused: {e}");
            }
            if let Some(d) = same(s, &after, q) {
                crate::fail!("retry-differs", "{name}, {what}: after the repetition the stock {d}");
            }
            if let Some(d) = same(&load(&dir).map_err(tell)?, &after, q) {
                crate::fail!("retry-not-saved", "{name}, {what}: after the repetition the loaded stock {d}");
            }
            ctx.trace();
        }
    }
    Ok(())
}

impl Space for P07 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        let before = s.clone();
        s.apply(a)?;
        let q = asked(s);
        let chain = &s.w.chain;
        let old = |i: usize| &before.w.wallets[i].stock;
        let run = |name: &str, base: &Stock, job: Job| blows(ctx, &format!("{a}: {name}"), base, &job, s, &q, self.fine);
        if let Some((p, to, c, _)) = s.pays.last().cloned().filter(|p| s.txs.last() == Some(&p.0.tx.txid())) {
            run("disclosure", old(p.from), Job::Take(Item::Fascia(p.fascia.clone())))?;
            let t = s.w.transfer(p.from, s.w.contracts[c], &p.outputs, p.secret)?;
            let t = s.w.validate(t)?;
            run("transfer", old(to), Job::Take(Item::Transfer(t.clone())))?;
            if let Some(seal) = s.w.wallets[to].ledger.secrets.values().next() {
                run("seal", old(to), Job::Take(Item::Seal(rgbstd::XChain::Bitcoin(*seal))))?;
            }
        }
        if !s.txs.is_empty() {
            let mut h = s.clone();
            h.w.chain.ord.insert(*s.txs.last().expect("present"), WitnessOrd::Archived);
            blows(ctx, &format!("{a}: new status"), &s.w.wallets[0].stock, &Job::Refresh, &h, &asked(&h), self.fine)?;
        }
        let id = *s.w.contracts.last().expect("present");
        let e = export(&s.w.wallets[0].stock, id)?;
        let e = e.validate(chain, true).map_err(|(s, _)| s).sut("validate exported contract")?;
        run("contract", old(1), Job::Take(Item::Contract(e)))?;
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

/// A stock becoming persistent, or saved on demand.
fn saves(ctx: &Ctx) {
    let roots = [Root::One(OP), Root::Kinds, Root::Shared];
    ctx.run(&roots, |r| format!("save|{r}"), |r, _| {
        ctx.eval();
        let mut h = Hist::new(r, 2)?;
        let menu = Menu { each_coin: false, ..Menu::default() };
        let act = h.actions(&menu).into_iter().next().expect("payment");
        let old = h.w.wallets[0].stock.clone_no_persistence();
        h.apply(&act)?;
        let new = h.w.wallets[0].stock.clone_no_persistence();
        let q = asked(&h);
        // over the files of the older stock, or over none
        for over in [false, true] {
            let dir = Scratch::new("save");
            let store = || FsBinStore::new(dir.path()).sut("FsBinStore::new");
            if over {
                old.clone_no_persistence().make_persistent(store()?, true).sut("make_persistent")?;
            }
            let image = dir.image();
            watch(&dir.path(), None);
            new.clone_no_persistence().make_persistent(store()?, true).sut("make_persistent")?;
            let calls = unwatch();
            for (k, part) in cuts(&calls, ctx.thorough) {
                for blow in [Blow::Crash, Blow::Error, Blow::Full] {
                    dir.restore(&image);
                    let mut s = new.clone_no_persistence();
                    watch(&dir.path(), Some((k, part, blow)));
                    let res = s.make_persistent(store()?, true);
                    unwatch();
                    ctx.step();
                    ctx.outcome(if res.is_ok() { "saved" } else { "not-saved" });
                    if res.is_ok() && blow != Blow::Crash {
                        if let Some(d) = same(&load(&dir)?, &new, &q) {
                            crate::fail!("unsaved-reported-as-done", "{blow:?} at call {k}: the loaded stock {d}");
                        }
                    }
                    if over {
                        let loaded = load(&dir)?;
                        if let Some(d) = kept(&loaded, &old, &new, &q, &h) {
                            crate::fail!("saved-data-lost", "{blow:?} at call {k}: {d}");
                        }
                    }
                    let store = FsBinStore::new(dir.path()).sut("FsBinStore::new")?;
                    s.make_persistent(store, true).sut("make_persistent")?;
                    if let Some(d) = same(&load(&dir)?, &new, &q) {
                        crate::fail!("retry-not-saved", "{blow:?} at call {k}: after the repetition the loaded stock {d}");
                    }
                    ctx.trace();
                }
            }
        }
        Ok(())
    });
}

pub fn check(ctx: &Ctx) -> i32 {
    // failures of autosaves are reported there by a dependency
    let err = crate::core::silence();
    saves(ctx);
    let menu = Menu { each_coin: false, ..Menu::default() };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin];
    if ctx.thorough {
        explore(ctx, &P07 { menu: menu.clone(), fine: true }, &roots, 1);
        explore(ctx, &P07 { menu, fine: false }, &roots[..4], 2);
    } else {
        explore(ctx, &P07 { menu: menu.clone(), fine: false }, &roots[2..4], 1);
        explore(ctx, &P07 { menu: Menu { bens: vec![Ben::Blind(OP)], tokens: false, ..menu }, fine: false }, &roots[..1], 2);
    }
    drop(err);
    ctx.finish(
        "fault_enumeration",
        "for every operation of every history: every open, write, sync, rename and removal made while it is saved becomes a crash, a single error or the first of a series of errors, a series of writes being cut at its start, middle and end (thorough: at 35 places); the directory is then loaded, everything saved before must be there, and repeating the operation must complete it; non-trivial = distinct content left on the disk by an operation and a kind of failure",
        &["a crash is the death of the process: what was written before reaches the disk", "files are written to a scratch directory"],
    )
}
