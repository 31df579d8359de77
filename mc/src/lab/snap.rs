//! Observations of a stock in canonical form.

use std::collections::BTreeSet;

use amplify::Wrapper;
use bp::Outpoint;
use rgbstd::containers::Contract;
use rgbstd::persistence::{ContractStateRead, Stock};
use rgbstd::*;
use strict_encoding::StrictSerialize;

use super::ledger::*;
use crate::core::{Sut, R};

fn seal_parts(s: &XOutputSeal) -> (u8, Outpoint) {
    match s {
        XChain::Bitcoin(s) => (s.method as u8, Outpoint::new(s.txid, s.vout)),
        _ => panic!("only bitcoin"),
    }
}

fn assign_line<S: KnownState>(c: ContractId, a: &OutputAssignment<S>, val: String) -> String {
    let (m, o) = seal_parts(&a.seal);
    line(c, a.opout.op, a.opout.ty.to_inner(), a.opout.no, m, o, &val)
}

/// Owned state of a contract, one line per assignment (duplicates are kept).
pub fn contract_lines(stock: &Stock, id: ContractId) -> R<Vec<String>> {
    let st = stock.contract_state(id).sut("contract_state")?;
    let mut v = vec![];
    v.extend(st.rights_all().map(|a| assign_line(id, a, "right".into())));
    v.extend(st.fungible_all().map(|a| assign_line(id, a, amount_line(&a.state))));
    v.extend(st.data_all().map(|a| assign_line(id, a, data_line(&a.state))));
    v.extend(st.attach_all().map(|a| assign_line(id, a, attach_line(&a.state))));
    v.sort();
    Ok(v)
}

pub fn contract_ids(stock: &Stock) -> R<BTreeSet<ContractId>> {
    Ok(stock.contracts().sut("contracts")?.map(|c| c.id).collect())
}

pub fn all_lines(stock: &Stock) -> R<Vec<String>> {
    let mut v = vec![];
    for id in contract_ids(stock)? {
        v.extend(contract_lines(stock, id)?);
    }
    v.sort();
    Ok(v)
}

pub fn bytes(x: &impl StrictSerialize) -> Vec<u8> {
    x.to_strict_serialized::<{ u32::MAX as usize }>().expect("serializable").release()
}

/// The complete content of the in-memory providers.
pub fn providers(stock: &Stock) -> [Vec<u8>; 3] {
    [bytes(stock.as_stash_provider()), bytes(stock.as_state_provider()), bytes(stock.as_index_provider())]
}

pub fn hash(stock: &Stock) -> String {
    let p = providers(stock);
    format!("{:x}-{:x}-{:x}", crate::core::fnv(&p[0]), crate::core::fnv(&p[1]), crate::core::fnv(&p[2]))
}

pub fn export(stock: &Stock, id: ContractId) -> R<Contract> { stock.export_contract(id).sut("export_contract") }

/// First difference of two sorted lists of lines.
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let mut extra: Vec<&String> = vec![];
    let mut missing: Vec<&String> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            extra.push(&a[i]);
            i += 1;
        } else if i >= a.len() || a[i] > b[j] {
            missing.push(&b[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    Some(format!("unexpected: {extra:?}; missing: {missing:?}"))
}
