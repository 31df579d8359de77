//! Atomicity: every mutating operation of bounded histories is repeated with a
//! failure at each call to the chain backend and at each write to the storage,
//! and with conflicting inputs.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::{ByteArray, Wrapper};
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::{BundleDichotomy, Fascia, Kit};
use rgbstd::persistence::Stock;
use rgbstd::*;

use crate::core::{fnv, Ctx, Fail, Sut, R};
use crate::explore::{explore, Space};
use crate::lab::*;

/// Repeats the job with every failure.
fn faults(ctx: &Ctx, name: &str, base: &Stock, job: &Job, chain: &Chain, q: &Asked, pairs: bool) -> R {
    let rng = fnv(name.as_bytes()) ^ ctx.seed;
    let chain = chain.clone();
    chain.fail_at.set(None);
    let start = || -> R<(Stock, Disk)> {
        let mut s = base.clone_no_persistence();
        let disk = Disk::default();
        s.make_persistent(disk.clone(), true).sut("make_persistent")?;
        disk.reset();
        Ok((s, disk))
    };
    // the run without failures
    let (mut after, disk) = start()?;
    let first = perform(&mut after, job, &chain, rng)?;
    ctx.step();
    if let Err(e) = first {
        // a conflicting input
        ctx.outcome("conflict");
        if let Some(d) = same(&after, base, q) {
            fail!("conflict-leaves-traces", "{name}: after the refusal ({e}) the stock {d}");
        }
        ensure!(disk.holds(&after), "conflict-leaves-traces-on-disk", "{name}: stored data differ from those in use after the refusal ({e})");
        return Ok(());
    }
    ensure!(disk.holds(&after), "stored-data-differ", "{name}: stored data differ from those in use after a successful operation");
    let (asked, writes) = (chain.calls.get(), disk.writes());
    let check_failed = |stock: &mut Stock, disk: &Disk, what: &str, res: Result<(), String>| -> R {
        match res {
            Ok(()) => {
                ctx.outcome("survived");
                if let Some(d) = same(stock, &after, q) {
                    fail!("failure-changes-result", "{name}, {what}: reported as done, but the stock {d}");
                }
                ensure!(disk.holds(stock), "unsaved-reported-as-done", "{name}, {what}: reported as done, but not all data are stored");
            }
            Err(e) => {
                ctx.outcome("refused");
                if let Some(d) = same(stock, base, q) {
                    fail!("failure-leaves-traces", "{name}, {what}: after the refusal ({e}) the stock {d}");
                }
            }
        }
        Ok(())
    };
    let retry = |stock: &mut Stock, disk: &Disk, what: &str| -> R {
        ctx.step();
        chain.fail_at.set(None);
        disk.heal();
        if let Err(e) = perform(stock, job, &chain, rng)? {
            fail!("retry-refused", "{name}, {what}: the retry is refused: {e}");
        }
        if let Some(d) = same(stock, &after, q) {
            fail!("retry-differs", "{name}, {what}: after the retry the stock {d}");
        }
        ensure!(disk.holds(stock), "retry-not-saved", "{name}, {what}: after the retry not all data are stored");
        ctx.trace();
        Ok(())
    };
    let refresh = matches!(job, Job::Refresh);
    let one = |stock: &mut Stock, disk: &Disk, what: &str| -> R<bool> {
        ctx.step();
        let res = perform(stock, job, &chain, rng)
            .map_err(|f| Fail::new(f.sig, format!("{name}, {what}: {}", f.detail)))?;
        let refused = res.is_err();
        check_failed(stock, disk, what, res)?;
        ctx.distinct(format!("{name}|{what}|{}", hash(stock)).as_bytes());
        Ok(refused)
    };
    // statuses that can't be learned are reported one by one, the rest is updated
    for k in 0..if refresh { 0 } else { asked } {
        chain.fail_at.set(Some(k));
        let (mut s, disk) = start()?;
        let what = format!("chain query {k} of {asked} fails");
        let refused = one(&mut s, &disk, &what)?;
        if refused {
            ensure!(disk.holds(&s), "failure-leaves-traces-on-disk", "{name}, {what}: stored data differ from those in use");
        }
        retry(&mut s, &disk, &what)?;
        chain.fail_at.set(None);
    }
    for k in 0..writes {
        for down in [false, true] {
            let (mut s, disk) = start()?;
            disk.fail(k, down);
            let what = format!("write {k} of {writes} {}", if down { "and all later ones fail" } else { "fails" });
            let refused = one(&mut s, &disk, &what)?;
            if refused && pairs {
                // the retry fails as well
                for j in 0..writes {
                    disk.heal();
                    disk.reset();
                    disk.fail(j, down);
                    let what = format!("{what}, then write {j}");
                    if !one(&mut s, &disk, &what)? {
                        break;
                    }
                }
            }
            retry(&mut s, &disk, &what)?;
        }
    }
    Ok(())
}

/// Disclosures which must not be taken.
fn spoiled(f: &Fascia) -> Vec<(String, Fascia)> {
    let mut v = vec![];
    let all: Vec<(ContractId, Vec<TransitionBundle>)> =
        f.bundles.iter().map(|(c, b)| (*c, b.clone().into_iter().collect())).collect();
    let rebuild = |l: Vec<(ContractId, Vec<TransitionBundle>)>| -> Option<Fascia> {
        let m: BTreeMap<ContractId, BundleDichotomy> =
            l.into_iter().map(|(c, b)| (c, BundleDichotomy::from_iter(b))).collect();
        let mut f = f.clone();
        f.bundles = Confined::try_from(m).ok()?;
        Some(f)
    };
    for (i, (_, bundles)) in all.iter().enumerate() {
        for j in 0..bundles.len() {
            let mut l = all.clone();
            let b = &mut l[i].1[j];
            let map: BTreeMap<_, _> = b.input_map.iter().map(|(k, _)| (*k, OpId::from_byte_array([7; 32]))).collect();
            b.input_map = InputMap::from_inner(Confined::try_from(map).expect("same size"));
            v.extend(rebuild(l).map(|f| (format!("stray{i}.{j}"), f)));
        }
        let mut l = all.clone();
        l[i].0 = ContractId::from_byte_array([if i == 0 { 0xFF } else { 0 }; 32]);
        v.extend(rebuild(l).map(|f| (format!("foreign{i}"), f)));
        // an unknown contract in addition to the known ones
        let mut l = all.clone();
        for at in [0, 0xFF] {
            l.push((ContractId::from_byte_array([at; 32]), all[i].1.clone()));
            v.extend(rebuild(l.clone()).map(|f| (format!("extra{i}.{at}"), f)));
        }
    }
    if all.len() > 1 {
        let mut l = all.clone();
        let x = l[0].1.clone();
        l[0].1 = l[1].1.clone();
        l[1].1 = x;
        v.extend(rebuild(l).map(|f| ("swapped".to_string(), f)));
    }
    v
}

struct P08 {
    menu: Menu,
    pairs: bool,
}

impl Space for P08 {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        let before = s.clone();
        s.apply(a)?;
        let q = asked(s);
        let chain = &s.w.chain;
        let stocks = |h: &Hist| h.w.wallets.iter().map(|w| w.stock.clone_no_persistence()).collect::<Vec<_>>();
        let (old, new) = (stocks(&before), stocks(s));
        let bare = Stock::in_memory();
        let fresh = fresh_stock()?;
        let run = |name: &str, base: &Stock, job: Job| faults(ctx, &format!("{a}: {name}"), base, &job, chain, &q, self.pairs);

        for (c, id) in s.w.contracts.iter().enumerate() {
            let e = export(&new[0], *id)?;
            let e = e.validate(chain, true).map_err(|(s, _)| s).sut("validate exported contract")?;
            run(&format!("contract {c} to a bare stock"), &bare, Job::Take(Item::Contract(e.clone())))?;
            run(&format!("contract {c} to a fresh stock"), &fresh, Job::Take(Item::Contract(e.clone())))?;
            run(&format!("contract {c} to its owner"), &new[0], Job::Take(Item::Contract(e)))?;
        }
        if let Some((p, to, c, _)) = s.pays.last().cloned().filter(|p| s.txs.last() == Some(&p.0.tx.txid())) {
            run("disclosure to the payer", &old[p.from], Job::Take(Item::Fascia(p.fascia.clone())))?;
            run("disclosure once more", &new[p.from], Job::Take(Item::Fascia(p.fascia.clone())))?;
            run("disclosure to a fresh stock", &fresh, Job::Take(Item::Fascia(p.fascia.clone())))?;
            for (n, f) in spoiled(&p.fascia) {
                run(&format!("disclosure {n} to the payer"), &old[p.from], Job::Take(Item::Fascia(f.clone())))?;
                run(&format!("disclosure {n} once more"), &new[p.from], Job::Take(Item::Fascia(f)))?;
            }
            // another proof for the same transaction
            let (_, other) = witness(&p.ops, 1)?;
            let f = Fascia { anchor: other.anchor, ..p.fascia.clone() };
            run("disclosure with another anchor", &new[p.from], Job::Take(Item::Fascia(f)))?;

            let t = s.w.transfer(p.from, s.w.contracts[c], &p.outputs, p.secret)?;
            let t = s.w.validate(t)?;
            run("transfer to the payee", &old[to], Job::Take(Item::Transfer(t.clone())))?;
            run("transfer to the payer", &new[p.from], Job::Take(Item::Transfer(t.clone())))?;
            run("transfer to a bare stock", &bare, Job::Take(Item::Transfer(t.clone())))?;
            run("transfer to a fresh stock", &fresh, Job::Take(Item::Transfer(t)))?;
            let seals: Vec<_> = s.w.wallets[to].ledger.secrets.values().copied().collect();
            for seal in seals.into_iter().take(2) {
                run("seal to the payee", &old[to], Job::Take(Item::Seal(XChain::Bitcoin(seal))))?;
            }
        }
        if !s.txs.is_empty() {
            for st in [St::Arch, St::Mined(10)] {
                let mut chain = chain.clone();
                chain.ord.insert(*s.txs.last().expect("present"), st.ord());
                faults(ctx, &format!("{a}: new status {st:?}"), &new[0], &Job::Refresh, &chain, &q, self.pairs)?;
            }
        }
        Ok(())
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

/// Kits, complete and not.
fn kits(ctx: &Ctx) {
    let mut list: Vec<(String, Kit)> = vec![("full".into(), full_kit())];
    let full = full_kit();
    list.push(("no-schemata".into(), Kit { schemata: none!(), ..full.clone() }));
    list.push(("no-interfaces".into(), Kit { ifaces: none!(), ..full.clone() }));
    list.push(("no-types".into(), Kit { types: none!(), ..full.clone() }));
    list.push(("no-scripts".into(), Kit { scripts: none!(), ..full.clone() }));
    for n in [1u8, 254, 255] {
        let mut k = full.clone();
        let mut more = BTreeSet::new();
        for i in 0..n {
            let mut x = fx().iface.clone();
            x.name = format!("Other{i}").parse().expect("name");
            more.insert(x);
        }
        k.ifaces = Confined::try_from(more).expect("small");
        if n > 1 {
            k.iimpls = none!();
        }
        list.push((format!("many-{n}"), k));
    }
    let bases = ["bare", "fresh", "owner"];
    let cases: Vec<_> = list.iter().flat_map(|k| bases.iter().map(move |b| (k, *b))).collect();
    ctx.run(&cases, |((n, _), b)| format!("kit|{n}|{b}"), |((n, k), b), _| {
        ctx.eval();
        let h = Hist::new(&Root::One(OP), 2)?;
        let base = match *b {
            "bare" => Stock::in_memory(),
            "fresh" => fresh_stock()?,
            _ => h.w.wallets[0].stock.clone_no_persistence(),
        };
        let valid = k.clone().validate().map_err(|(s, _)| s).sut("kit validate")?;
        faults(ctx, &format!("kit {n} to a {b} stock"), &base, &Job::Take(Item::Kit(valid)), &h.w.chain, &asked(&h), true)
    });
}

pub fn check(ctx: &Ctx) -> i32 {
    // failures of autosaves are reported there by a dependency
    let err = crate::core::silence();
    kits(ctx);
    let menu = Menu { hold: true, ..Menu::default() };
    let roots = [Root::One(OP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin, Root::Many];
    if ctx.thorough {
        explore(ctx, &P08 { menu: menu.clone(), pairs: true }, &roots, 1);
        explore(ctx, &P08 { menu: Menu { all_coins: true, each_coin: false, bens: vec![Ben::Blind(OP), Ben::Vout(TAP)], ..Menu::default() }, pairs: false }, &roots, 2);
    } else {
        let menu = Menu { all_coins: true, each_coin: false, ..Menu::default() };
        explore(ctx, &P08 { menu: menu.clone(), pairs: false }, &roots[1..4], 1);
        explore(ctx, &P08 { menu: Menu { tokens: false, bens: vec![Ben::Blind(OP)], ..menu }, pairs: false }, &roots[..1], 2);
    }
    drop(err);
    ctx.finish(
        "fault_enumeration",
        "for every operation of every history: one run without failures, then one run per call to the chain backend and per write to the storage with that call failing (alone, or with all later ones), each followed by a retry; plus disclosures and kits which conflict with what is known; after a refusal the stock answers as before, after the retry as if nothing had failed; non-trivial = distinct operation, place of failure and state",
        &["status updates report chain failures per transaction and are not refused as a whole", "composing takes the stock read-only"],
    )
}
