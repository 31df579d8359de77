"""Planted bugs: each with the property it breaks, the edit, what it takes to
show, and a demonstration."""
S = "src/persistence/"
SEEDS = [
dict(id="B01", property="P05", edits=[(S+"memory.rs",
  "if matches!(ord, WitnessOrd::Mined(pos) if pos.height() < after_height) {",
  "if matches!(ord, WitnessOrd::Mined(pos) if pos.height() <= after_height) {")],
  needs="a witness mined exactly at the height the update starts from, which is then reorganised out",
  breaks="The update skips witnesses mined at the cut-off height itself, so state stays visible after its witness transaction was reorganised out.",
  demo='''
    let mut h = Hist::new(&Root::One(OP), 2)?;
    h.apply(&pay(0, 1, 0, Val::Asset(30), 1, Ben::Vout(OP), true))?;
    h.apply(&Act::Status(0, St::Mined(7)))?;
    h.check_state()?;
    let t = h.txs[0];
    h.w.chain.ord.insert(t, rgbstd::vm::WitnessOrd::Archived);
    h.refresh(0, 7)?;
    h.refresh(1, 7)?;
    h.check_state()?;'''),
dict(id="B02", property="P02", edits=[(S+"memory.rs",
'''                .iter()
                .enumerate()
                .filter_map(|(n, a)| a.to_revealed().map(|(seal, state)| (n, seal, state)))
''','''                .iter()
                .filter_map(|a| a.to_revealed())
                .enumerate()
                .map(|(n, (seal, state))| (n, seal, state))
''')],
  needs="an operation where a blinded assignment precedes a disclosed one of the same type",
  breaks="State following a blinded assignment of the same type is recorded under a wrong assignment number.",
  demo='''
    let mut h = Hist::new(&Root::Many, 3)?;
    let cid = h.w.contracts[0];
    let (_, s1) = h.w.invoice(1, cid, Ben::Blind(OP), &Val::Asset(1))?;
    let (_, s2) = h.w.invoice(2, cid, Ben::Blind(OP), &Val::Asset(1))?;
    let coin = h.coins(0)[0];
    let found = h.w.wallets[0].stock.contract_assignments_for(cid, [xo(coin)]).sut("assignments")?;
    let mut b = h.w.wallets[0].stock.transition_builder(cid, "LabAsset", Some("transfer")).sut("builder")?;
    let mut first = true;
    for (_, list) in found {
        for (opout, state) in list {
            b = b.add_input(opout, state.clone()).sut("input")?;
            if let rgbstd::persistence::PersistedState::Amount(v, _, _) = state {
                use rgbstd::containers::BuilderSeal;
                use commit_verify::Conceal;
                b = b.add_fungible_state_raw(opout.ty, BuilderSeal::Concealed(s1.unwrap().conceal()), 4u64, blinding(901)).sut("out")?;
                b = b.add_fungible_state_raw(opout.ty, BuilderSeal::Concealed(s2.unwrap().conceal()), v.value() - 4, blinding(902)).sut("out")?;
            } else {
                b = b.add_owned_state_raw(opout.ty, vseal(OP, 1, 903), state).sut("other")?;
            }
        }
    }
    let op = Op { contract: cid, method: OP, inputs: [coin].into(), transition: b.complete_transition().sut("complete")? };
    h.w.broadcast(0, &[op], 0, rgbstd::vm::WitnessOrd::Tentative)?;
    for (i, s) in [(1, s1), (2, s2)] {
        use commit_verify::Conceal;
        let t = h.w.transfer(0, cid, &[], Some(s.unwrap().conceal()))?;
        h.w.accept(i, t)?;
    }
    h.check_state()?;'''),
dict(id="B03", property="P01", edits=[(S+"memory.rs",
'''        for (no, assign) in vec.iter().enumerate() {
            let opout = Opout::new(opid, type_id, no as u16);
            if let Assign::Confidential { seal, .. } | Assign::ConfidentialSeal { seal, .. } =
                assign
            {
                self.add_terminal(*seal, opout)?;
            }
        }
''','''        for (no, assign) in vec.iter().enumerate() {
            let opout = Opout::new(opid, type_id, no as u16);
            if let Assign::ConfidentialSeal { seal, .. } = assign {
                self.add_terminal(*seal, opout)?;
                break;
            }
        }
''')],
  needs="one operation with two assignments of one type to two different blinded seals",
  breaks="Only the first blinded seal of each state type is indexed, so the second payee of one operation gets nothing exported.",
  demo='''
    let mut h = Hist::new(&Root::Many, 3)?;
    let cid = h.w.contracts[0];
    let (_, s1) = h.w.invoice(1, cid, Ben::Blind(OP), &Val::Asset(1))?;
    let (_, s2) = h.w.invoice(2, cid, Ben::Blind(OP), &Val::Asset(1))?;
    let coin = h.coins(0)[0];
    let found = h.w.wallets[0].stock.contract_assignments_for(cid, [xo(coin)]).sut("assignments")?;
    let mut b = h.w.wallets[0].stock.transition_builder(cid, "LabAsset", Some("transfer")).sut("builder")?;
    let mut first = true;
    for (_, list) in found {
        for (opout, state) in list {
            b = b.add_input(opout, state.clone()).sut("input")?;
            if let rgbstd::persistence::PersistedState::Amount(v, _, _) = state {
                use rgbstd::containers::BuilderSeal;
                use commit_verify::Conceal;
                b = b.add_fungible_state_raw(opout.ty, BuilderSeal::Concealed(s1.unwrap().conceal()), 4u64, blinding(901)).sut("out")?;
                b = b.add_fungible_state_raw(opout.ty, BuilderSeal::Concealed(s2.unwrap().conceal()), v.value() - 4, blinding(902)).sut("out")?;
            } else {
                b = b.add_owned_state_raw(opout.ty, vseal(OP, 1, 903), state).sut("other")?;
            }
        }
    }
    let op = Op { contract: cid, method: OP, inputs: [coin].into(), transition: b.complete_transition().sut("complete")? };
    h.w.broadcast(0, &[op], 0, rgbstd::vm::WitnessOrd::Tentative)?;
    for (i, s) in [(1, s1), (2, s2)] {
        use commit_verify::Conceal;
        let t = h.w.transfer(0, cid, &[], Some(s.unwrap().conceal()))?;
        h.w.accept(i, t)?;
        ensure!(all_lines(&h.w.wallets[i].stock)?.len() > 0, "nothing", "wallet {i} got nothing");
        let st = h.w.wallets[i].stock.contract_state(cid).sut("state")?;
        use rgbstd::persistence::ContractStateRead;
        let seals: Vec<_> = st.fungible_all().filter(|a| a.witness.is_none() == false).collect();
        ensure!(!seals.is_empty(), "nothing", "wallet {i} got nothing by its seal");
    }'''),
dict(id="B04", property="P29", edits=[(S+"memory.rs",
'''        self.bundle_witness_index
            .entry(bundle_id)?
            .or_default()
            .push(witness_id)?;
''','''        if !self.bundle_witness_index.contains_key(&bundle_id) {
            self.bundle_witness_index
                .insert(bundle_id, tiny_bset![witness_id])?;
        }
''')],
  needs="a payment transaction replaced by another one with the same operations, the first one then being archived",
  breaks="A bundle is linked only with the first transaction it was seen in; when that one is replaced, the payment can't be exported any more.",
  demo='''
    let mut h = Hist::new(&Root::One(OP), 2)?;
    let cid = h.w.contracts[0];
    let coin = h.coins(0)[0];
    let ops = h.move_ops(0, cid, coin, 1)?;
    let (a, _) = h.w.broadcast(0, &ops, 0, rgbstd::vm::WitnessOrd::Tentative)?;
    let (b, _) = h.w.broadcast(0, &ops, 1, rgbstd::vm::WitnessOrd::Tentative)?;
    ensure!(a.txid() != b.txid(), "harness", "same transaction");
    h.w.chain.ord.insert(a.txid(), rgbstd::vm::WitnessOrd::Archived);
    h.refresh(0, 0)?;
    let out = Outpoint::new(b.txid(), Vout::from_u32(1));
    let t = h.w.transfer(0, cid, &[oseal(OP, out)], None)?;
    h.w.accept(1, t)?;
    h.check_state()?;'''),
dict(id="B05", property="P19", edits=[(S+"memory.rs",
'''            Some(mut existing_opouts) => {
                existing_opouts.push(opout)?;
                let _ = self.terminal_index.insert(seal, existing_opouts);
            }
''','''            Some(_) => {
                self.terminal_index.insert(seal, tiny_bset![opout])?;
            }
''')],
  needs="one blinded seal used by two operations, each to be exported by that seal",
  breaks="Reuse of a blinded seal makes the stock forget the earlier state assigned to it.",
  demo='''
    use commit_verify::Conceal;
    let mut h = Hist::new(&Root::Shared, 2)?;
    let (c0, c1) = (h.w.contracts[0], h.w.contracts[1]);
    let (inv, seal) = h.w.invoice(1, c0, Ben::Blind(OP), &Val::Asset(5))?;
    let secret = seal.unwrap().conceal();
    let coins = h.coins(0);
    let mut inv2 = inv.clone();
    inv2.contract = Some(c1);
    let mut done = vec![];
    for (cid, inv) in [(c0, &inv), (c1, &inv2)] {
        let coins = h.coins(0);
        let batch = h.w.compose(0, inv, &coins, OP, Ben::Blind(OP))?;
        let ops = batch_ops(batch);
        let (tx, _) = h.w.broadcast(0, &ops, 0, rgbstd::vm::WitnessOrd::Tentative)?;
        let w = &mut h.w.wallets[0].coins;
        w.clear();
        w.insert(Outpoint::new(tx.txid(), Vout::from_u32(1)));
        w.insert(Outpoint::new(tx.txid(), Vout::from_u32(3)));
        done.push(cid);
    }
    for cid in done {
        let t = h.w.transfer(0, cid, &[], Some(secret))?;
        ensure!(!t.bundles.is_empty(), "nothing", "export by the seal carries no operation");
        h.w.accept(1, t)?;
    }'''),
dict(id="B06", property="P24", edits=[(S+"state.rs",
'''        for transition in bundle.known_transitions.values() {
            let ord = resolver
                .resolve_pub_witness_ord(witness_id)
                .map_err(|e| StateError::Resolver(witness_id, e))?;
            updater
''','''        let ord = resolver
            .resolve_pub_witness_ord(witness_id)
            .map_err(|e| StateError::Resolver(witness_id, e))?;
        for transition in bundle.known_transitions.values().take(1) {
            updater
''')],
  needs="two transitions of one contract in one bundle, consumed by their author",
  breaks="The author records the state of only one of the transitions of a bundle.",
  demo='''
    let mut h = Hist::new(&Root::Many, 2)?;
    h.apply(&Act::Sweep { from: 0 })?;
    h.check_state()?;'''),
dict(id="B07", property="P03", edits=[(S+"memory.rs",
'''        let present = self.bundles.insert(bundle_id, bundle)?.is_some();
        Ok(!present)
''','''        if self.bundles.contains_key(&bundle_id) {
            return Ok(false);
        }
        self.bundles.insert(bundle_id, bundle)?;
        Ok(true)
''')],
  needs="a payment received with the seal concealed and received again after the blinded seal was stored",
  breaks="Data disclosed by a later consignment for a known bundle are not stored, so the stash depends on the order of arrival.",
  demo='''
    let mut h = Hist::new(&Root::One(OP), 3)?;
    let cid = h.w.contracts[0];
    h.apply(&pay(0, 1, 0, Val::Asset(30), 1, Ben::Blind(OP), false))?;
    let p = h.pays[0].0.clone();
    let t = h.w.transfer(0, cid, &[], p.secret)?;
    // wallet 2 gets it without the secret, then with it
    h.w.accept(2, t.clone())?;
    let id = h.w.wallets[2].stock.as_stash_provider().debug_bundles().keys().next().copied().unwrap();
    let seal = *h.w.wallets[1].stock.as_stash_provider().debug_secret_seals().iter().next().unwrap();
    h.w.wallets[2].stock.store_secret_seal(seal).sut("store")?;
    h.w.wallets[2].ledger.secret(seal);
    h.w.accept(2, t.clone())?;
    h.w.accept(1, t)?;
    let (a, b) = (h.w.wallets[1].stock.as_stash_provider().debug_bundles(), h.w.wallets[2].stock.as_stash_provider().debug_bundles());
    ensure!(format!("{a:?}") == format!("{b:?}"), "order", "stashes differ after the same deliveries in another order");
    h.check_state()?;'''),
dict(id="B08", property="P20", edits=[("src/interface/contract.rs",
"            .filter(move |outp| filter.should_include(outp.seal, outp.witness)))",
"            .filter(move |outp| outp.witness.is_none() || filter.should_include(outp.seal, outp.witness)))")],
  needs="an interface query filtered by outpoints which do not include a genesis allocation",
  breaks="State assigned by genesis passes every filter of interface queries.",
  demo='''
    let h = Hist::new(&Root::TwoMethods, 2)?;
    let cid = h.w.contracts[0];
    let a = h.coins(0)[0];
    let iface = h.w.wallets[0].stock.contract_iface(cid, "LabAsset").sut("iface")?;
    let list: Vec<_> = iface.fungible("asset", xo(a)).sut("fungible")?.collect();
    ensure!(list.len() == 1, "filter", "{} allocations at one outpoint", list.len());'''),
dict(id="B09", property="P14", edits=[("invoice/src/amount.rs",
"    pub fn checked_add(&self, other: impl Into<Self>) -> Option<Self> {\n        self.0.checked_add(other.into().0).map(Self)",
"    pub fn checked_add(&self, other: impl Into<Self>) -> Option<Self> {\n        Some(self.0.saturating_add(other.into().0)).map(Self)")],
  needs="a checked addition exceeding 64 bits",
  breaks="Checked addition of amounts saturates instead of reporting the overflow.",
  demo='''
    let a = rgbstd::Amount::from(u64::MAX - 1);
    ensure!(a.checked_add(1u64) == Some(rgbstd::Amount::from(u64::MAX)), "sum", "wrong sum");
    ensure!(a.checked_add(2u64).is_none(), "overflow", "overflow is not reported");'''),
dict(id="B10", property="P13", edits=[("invoice/src/parse.rs",
"                .parse::<i64>()\n",
"                .parse::<u32>()\n                .map(i64::from)\n")],
  needs="an invoice expiring after 2106",
  breaks="Invoices expiring after 2106 (or before 1970) can't be parsed back.",
  demo='''
    let h = Hist::new(&Root::One(OP), 2)?;
    let mut inv = make_invoice(h.w.contracts[0], vout_ben(OP), &Val::Asset(5));
    inv.expiry = Some(5_000_000_000);
    let text = inv.to_string();
    let back = rgbstd::invoice::RgbInvoice::from_str(&text).sut("parse")?;
    ensure!(back == inv, "round-trip", "{text}");'''),
dict(id="B11", property="P04", edits=[(S+"stock.rs",
'''                    if output.method() == method {
                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
                    } else {
                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                    }
                } else if let PersistedState::Amount''',
'''                    if output.method() == method {
                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
                    }
                } else if let PersistedState::Amount''')],
  needs="state of another type on an output closed by the other method",
  breaks="State of another type held by an output closed by a method other than that of the wallet is lost by a payment.",
  demo='''
    let mut h = Hist::new(&Root::Twin, 2)?;
    let n = |h: &Hist| all_lines(&h.w.wallets[0].stock).map(|l| l.iter().filter(|x| x.ends_with("right")).count());
    ensure!(n(&h)? == 1, "harness", "one right");
    h.apply(&pay(0, 1, 0, Val::Asset(5), 1, Ben::Vout(OP), true))?;
    // spent state stays listed, so there must be one more
    ensure!(n(&h)? == 2, "lost", "the right is lost");'''),
dict(id="B12", property="P18", edits=[(S+"stock.rs",
'''        for item in state.attach_all() {
            let outpoint = item.seal.into();
            if outputs.contains::<XOutpoint>(&outpoint) {
                res.entry(item.seal).or_default().insert(
''','''        for item in state.attach_all() {
            let outpoint = item.seal.into();
            if outputs.contains::<XOutpoint>(&outpoint) && !res.contains_key(&item.seal) {
                res.entry(item.seal).or_default().insert(
''')],
  needs="an output which holds an attachment together with other state",
  breaks="Attachments are not reported for outputs which hold other state too.",
  demo='''
    let h = Hist::new(&Root::Docs, 2)?;
    let cid = h.w.contracts[0];
    let mut docs = 0;
    for o in h.coins(0) {
        for (_, l) in h.w.wallets[0].stock.contract_assignments_for(cid, [xo(o)]).sut("assignments")? {
            docs += l.values().filter(|s| matches!(s, rgbstd::persistence::PersistedState::Attachment(..))).count();
        }
    }
    ensure!(docs == 2, "lost", "{docs} attachments found");'''),
]
