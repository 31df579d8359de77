//! Deliveries of parcels (containers and disclosures) to one stock in all
//! orders, with all repetitions, until no new state appears.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

use bp::seals::SecretSeal;
use bp::Outpoint;
use commit_verify::Conceal;
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::{Fascia, ValidContract, ValidKit, ValidTransfer};
use rgbstd::persistence::Stock;
use rgbstd::*;

use super::*;
use crate::core::{fnv, Ctx, Fail, Sut, R};

#[derive(Clone)]
pub enum Item {
    Seal(XChain<GraphSeal>),
    Kit(ValidKit),
    Contract(ValidContract),
    Transfer(ValidTransfer),
    Fascia(Fascia),
}

#[derive(Clone)]
pub struct Parcel {
    pub name: String,
    pub item: Item,
    /// Parcels of which one has to arrive earlier (none required if empty).
    pub needs: Vec<usize>,
    /// What is known after the parcel in addition to what the ledger keeps.
    pub tag: u64,
}

pub struct Node {
    pub stock: Stock,
    pub ledger: Ledger,
}

impl Clone for Node {
    fn clone(&self) -> Self { Node { stock: self.stock.clone_no_persistence(), ledger: self.ledger.clone() } }
}

impl Node {
    pub fn fresh() -> R<Node> { Ok(Node { stock: fresh_stock()?, ledger: Ledger::default() }) }
    pub fn take(&mut self, item: &Item, chain: &Chain) -> R {
        match item.clone() {
            Item::Seal(s) => {
                self.ledger.secret(s);
                self.stock.store_secret_seal(s).sut("store_secret_seal")?;
            }
            Item::Kit(k) => {
                self.stock.import_kit(k).sut("import_kit")?;
            }
            Item::Contract(c) => {
                self.ledger.consignment(&c, chain);
                self.stock.import_contract(c, chain).sut("import_contract")?;
            }
            Item::Transfer(t) => {
                self.ledger.consignment(&t, chain);
                self.stock.accept_transfer(t, chain).sut("accept_transfer")?;
            }
            Item::Fascia(f) => {
                self.ledger.fascia(&f, chain);
                self.stock.consume_fascia(f, chain).sut("consume_fascia")?;
            }
        }
        Ok(())
    }

    /// All exports of a stock: contracts, each visible output, all outputs
    /// together and each of the given secret seals.
    pub fn exports(&self, secrets: &[XChain<SecretSeal>], chain: &Chain, validate: bool) -> R<Vec<String>> {
        let mut v = vec![];
        let mut by: BTreeMap<ContractId, BTreeSet<Outpoint>> = BTreeMap::new();
        for op in self.ledger.ops.values() {
            by.entry(op.contract).or_default();
        }
        for x in self.ledger.visible() {
            by.entry(x.0).or_default().insert(x.5);
        }
        for (c, outs) in by {
            let e = self.stock.export_contract(c).sut("export_contract")?;
            v.push(format!("contract {} {:x}", short(c), fnv(&bytes(&e))));
            if validate {
                e.validate(chain, true).map_err(|(s, _)| s).sut("validate exported contract")?;
            }
            let mut sets: Vec<Vec<Outpoint>> = outs.iter().map(|o| vec![*o]).collect();
            if outs.len() > 1 {
                sets.push(outs.iter().copied().collect());
            }
            for set in sets {
                let seals: Vec<_> = set.iter().map(|o| oseal(OP, *o)).collect();
                let t = self.stock.transfer(c, &seals, None).sut("transfer")?;
                v.push(format!("transfer {} {set:?} {:x}", short(c), fnv(&bytes(&t))));
                if validate {
                    t.validate(chain, true).map_err(|(s, _)| s).sut("validate transfer")?;
                }
            }
            for s in secrets {
                let t = self.stock.transfer(c, [], Some(*s)).sut("transfer by secret")?;
                v.push(format!("transfer {} {s} {:x}", short(c), fnv(&bytes(&t))));
            }
        }
        Ok(v)
    }
}

/// All seals among the parcels, concealed.
pub fn secrets(parcels: &[Parcel]) -> Vec<XChain<SecretSeal>> {
    parcels
        .iter()
        .filter_map(|p| match &p.item {
            Item::Seal(s) => Some(s.conceal()),
            _ => None,
        })
        .collect()
}

/// Explores all delivery sequences (up to `max` deliveries). The state must
/// follow the ledger, and everything exported must depend on what is known
/// only, not on the way it was learned.
pub fn deliveries(
    ctx: &Ctx,
    start: &Node,
    parcels: &[Parcel],
    chain: &Chain,
    max: usize,
    extra: &[XChain<SecretSeal>],
    validate: bool,
) -> R {
    let mut seals = secrets(parcels);
    seals.extend_from_slice(extra);
    let mut seen: HashSet<(u64, String)> = HashSet::new();
    let mut known: HashMap<u64, (String, Vec<String>)> = HashMap::new();
    let mut queue = VecDeque::from([(start.clone(), String::new(), 0u64, 0usize)]);
    while let Some((node, path, mask, depth)) = queue.pop_front() {
        if depth >= max {
            ctx.trace();
            continue;
        }
        for (i, p) in parcels.iter().enumerate() {
            if !p.needs.is_empty() && !p.needs.iter().any(|n| mask & (1 << n) != 0) {
                continue;
            }
            let mut n = node.clone();
            let path = format!("{path}|{}", p.name);
            let tell = |e: Fail| Fail::new(e.sig, format!("deliveries {path}: {}", e.detail));
            ctx.step();
            crate::core::set_rng(fnv(path.as_bytes()) ^ ctx.seed);
            n.take(&p.item, chain).map_err(tell)?;
            if let Some(d) = diff(&all_lines(&n.stock)?, &n.ledger.lines()) {
                fail!("state-differs-from-ledger", "deliveries {path}: {d}");
            }
            let mask = mask | 1 << i;
            let id = (mask, hash(&n.stock));
            if !seen.insert(id.clone()) {
                ctx.trace();
                continue;
            }
            ctx.state(&format!("{}{}", id.0, id.1));
            let tags = (0..parcels.len()).filter(|j| mask & (1 << j) != 0).fold(0, |t, j| t | parcels[j].tag);
            let knowledge = fnv(format!("{:?}{tags}", n.ledger).as_bytes());
            let first = !known.contains_key(&knowledge);
            let obs = n.exports(&seals, chain, validate && first).map_err(tell)?;
            match known.get(&knowledge) {
                None => {
                    ctx.outcome("new-knowledge");
                    known.insert(knowledge, (path.clone(), obs));
                }
                Some((other, o)) => {
                    ctx.outcome("other-way");
                    if let Some(d) = diff(&sorted(&obs), &sorted(o)) {
                        fail!("order-matters", "exports after {path} differ from those after {other}: {d}");
                    }
                }
            }
            queue.push_back((n, path, mask, depth + 1));
        }
    }
    ctx.outcome("closed");
    Ok(())
}

fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}
