//! Beneficiaries and networks.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use invoice::{AddressNetwork, AddressPayload, Network};
use bp::seals::txout::CloseMethod;
use bp::{OutputPk, PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
use rgbinvoice::{Beneficiary, ChainNet, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet};
use rgbstd::{Layer1, SecretSeal};

use crate::core::*;

pub const NETS: [ChainNet; 6] = [
    ChainNet::BitcoinMainnet,
    ChainNet::BitcoinTestnet,
    ChainNet::BitcoinSignet,
    ChainNet::BitcoinRegtest,
    ChainNet::LiquidMainnet,
    ChainNet::LiquidTestnet,
];

pub fn payloads(thorough: bool) -> Vec<AddressPayload> {
    let mut out = vec![];
    let mut patterns: Vec<Box<dyn Fn(usize) -> u8>> = vec![
        Box::new(|_| 0),
        Box::new(|_| 0xFF),
        Box::new(|i| i as u8 + 1),
        Box::new(|i| if i == 0 { 1 } else { 0 }),
        Box::new(|i| if i >= 19 { 0x80 } else { 0 }),
        Box::new(|i| if i == 31 { 1 } else { 0 }),
    ];
    if thorough {
        for k in 0..32usize {
            patterns.push(Box::new(move |i| if i == k { 0xA5 } else { 0 }));
        }
    }
    for p in &patterns {
        let h20: Vec<u8> = (0..20).map(|i| p(i)).collect();
        let h32: Vec<u8> = (0..32).map(|i| p(i)).collect();
        let h20: [u8; 20] = h20.try_into().unwrap();
        let h32: [u8; 32] = h32.try_into().unwrap();
        out.push(AddressPayload::Pkh(PubkeyHash::from(h20)));
        out.push(AddressPayload::Sh(ScriptHash::from(h20)));
        out.push(AddressPayload::Wpkh(WPubkeyHash::from(h20)));
        out.push(AddressPayload::Wsh(WScriptHash::from(h32)));
        if let Ok(pk) = OutputPk::from_byte_array(h32) {
            out.push(AddressPayload::Tr(pk));
        }
    }
    for k in 1..6u8 {
        let mut h = [0u8; 32];
        h[31] = k;
        if let Ok(pk) = OutputPk::from_byte_array(h) {
            out.push(AddressPayload::Tr(pk));
        }
    }
    out
}

pub fn seals() -> Vec<SecretSeal> {
    [[0u8; 32], [0xFF; 32], [1; 32]].into_iter().map(SecretSeal::from).chain([{
        let mut a = [0u8; 32];
        a[31] = 1;
        SecretSeal::from(a)
    }]).collect()
}

/// Independent byte form of a witness-output beneficiary.
fn bytes(p: &Pay2Vout) -> [u8; 34] {
    let mut out = [0u8; 34];
    out[0] = match p.method {
        CloseMethod::OpretFirst => 0x00,
        CloseMethod::TapretFirst => 0x01,
    };
    let (k, b): (u8, Vec<u8>) = match &p.address {
        AddressPayload::Pkh(h) => (1, AsRef::<[u8]>::as_ref(h).to_vec()),
        AddressPayload::Sh(h) => (2, AsRef::<[u8]>::as_ref(h).to_vec()),
        AddressPayload::Wpkh(h) => (3, AsRef::<[u8]>::as_ref(h).to_vec()),
        AddressPayload::Wsh(h) => (4, AsRef::<[u8]>::as_ref(h).to_vec()),
        AddressPayload::Tr(h) => (5, h.to_byte_array().to_vec()),
    };
    out[1] = k;
    out[2..2 + b.len()].copy_from_slice(&b);
    out
}

fn layer(n: ChainNet) -> (Layer1, bool, AddressNetwork, &'static str) {
    match n {
        ChainNet::BitcoinMainnet => (Layer1::Bitcoin, true, AddressNetwork::Mainnet, "bc"),
        ChainNet::BitcoinTestnet => (Layer1::Bitcoin, false, AddressNetwork::Testnet, "tb"),
        ChainNet::BitcoinSignet => (Layer1::Bitcoin, false, AddressNetwork::Testnet, "sb"),
        ChainNet::BitcoinRegtest => (Layer1::Bitcoin, false, AddressNetwork::Regtest, "bcrt"),
        ChainNet::LiquidMainnet => (Layer1::Liquid, true, AddressNetwork::Mainnet, "lq"),
        ChainNet::LiquidTestnet => (Layer1::Liquid, false, AddressNetwork::Testnet, "tl"),
        _ => unreachable!(),
    }
}

fn network(n: ChainNet) -> R {
    let (l, prod, an, text) = layer(n);
    ensure!(n.layer1() == l && n.is_prod() == prod && n.address_network() == an, "net-attr", "{n:?}");
    ensure!(n.to_string() == text, "net-text", "{n:?} prints as {n}");
    for t in [text.to_string(), text.to_uppercase()] {
        let back = ChainNet::from_str(&t).sut("net-parse")?;
        ensure!(back == n, "net-parse", "{t} of {n:?} reads as {back:?}");
    }
    let x = XChainNet::with(n, 5u8);
    ensure!(x.chain_network() == n && x.layer1() == l && x.is_prod() == prod && x.address_network() == an && x.into_inner() == 5,
        "net-wrap", "{n:?}");
    Ok(())
}

fn beneficiary(ctx: &Ctx, b: XChainNet<Beneficiary>) -> R {
    let s = b.to_string();
    ctx.state(&s);
    let back = XChainNet::<Beneficiary>::from_str(&s).sut("beneficiary-parse")?;
    ensure!(back == b, "beneficiary-text", "{b:?} printed as {s} read as {back:?}");
    let bare = s.replace('-', "");
    let back = XChainNet::<Beneficiary>::from_str(&bare).sut("beneficiary-parse-bare")?;
    ensure!(back == b, "beneficiary-text-bare", "{b:?} printed as {bare} read as {back:?}");
    let inv = RgbInvoiceBuilder::new(b).finish();
    let inv = RgbInvoice::from_str(&inv.to_string()).sut("invoice-parse")?;
    ensure!(inv.beneficiary == b, "invoice-beneficiary", "{b:?} became {:?}", inv.beneficiary);
    ensure!(inv.chain_network() == b.chain_network() && inv.layer1() == b.layer1() && inv.is_prod() == b.is_prod()
        && inv.address_network() == b.address_network(), "invoice-net", "{b:?}");
    if let Beneficiary::WitnessVout(p) = b.into_inner() {
        let raw = bytes(&p);
        let q = Pay2Vout::try_from(raw).sut("bytes-read")?;
        ensure!(q == p, "bytes", "{p:?} from bytes {raw:02x?} is {q:?}");
        let t = p.to_string();
        let q = Pay2Vout::from_str(&t).sut("pay2vout-parse")?;
        ensure!(q == p, "pay2vout-text", "{p:?} as {t} is {q:?}");
        use baid64::DisplayBaid64;
        ensure!(p.to_baid64_payload() == raw, "bytes-write", "{p:?}: {:02x?}", p.to_baid64_payload());
    }
    // every other network prefix gives another network, never the same
    for n in NETS {
        let rest = s.split_once(':').map(|x| x.1).unwrap_or("");
        let other = XChainNet::<Beneficiary>::from_str(&format!("{n}:{rest}")).sut("beneficiary-other-net")?;
        ensure!(other.chain_network() == n, "beneficiary-net", "{n}:{rest} is {:?}", other.chain_network());
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    ctx.run(&NETS, |n| format!("net/{n:?}"), |n, _| {
        ctx.step();
        ctx.state(&format!("{n:?}"));
        network(*n)
    });
    ctx.run(&[0], |_| "bitcoin-networks".into(), |_, _| {
        for (n, want) in [
            (Network::Mainnet, ChainNet::BitcoinMainnet),
            (Network::Testnet3, ChainNet::BitcoinTestnet),
            (Network::Testnet4, ChainNet::BitcoinTestnet),
            (Network::Signet, ChainNet::BitcoinSignet),
            (Network::Regtest, ChainNet::BitcoinRegtest),
        ] {
            ctx.step();
            let x = XChainNet::bitcoin(n, ());
            ensure!(x.chain_network() == want, "bitcoin-net", "{n:?} is {:?}", x.chain_network());
        }
        Ok(())
    });
    // all short strings: only the six names (any case) are networks, each one its own
    let alpha: Vec<char> = "abclqrstBCLT:1 ".chars().collect();
    let mut names = vec![String::new()];
    let mut level = names.clone();
    for _ in 0..if ctx.thorough { 5 } else { 4 } {
        level = level.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        names.extend(level.iter().cloned());
    }
    let chunks: Vec<&[String]> = names.chunks(5000).collect();
    let found = std::sync::Mutex::new(BTreeMap::<String, BTreeSet<String>>::new());
    ctx.run(&chunks, |c| format!("names/{:?}", c[0]), |c, _| {
        for s in *c {
            ctx.step();
            let r = ChainNet::from_str(s);
            let want = NETS.into_iter().find(|n| layer(*n).3 == s.to_lowercase());
            match (r, want) {
                (Ok(n), w) => {
                    ensure!(Some(n) == w, "net-name", "{s:?} reads as {n:?}, should be {w:?}");
                    found.lock().unwrap().entry(format!("{n:?}")).or_default().insert(s.clone());
                    ctx.outcome("name-accepted");
                }
                (Err(_), None) => ctx.outcome("name-refused"),
                (Err(e), Some(w)) => fail!("net-name", "{s:?} ({w:?}) refused: {e}"),
            }
        }
        Ok(())
    });
    ctx.note("network_names_accepted", found.lock().unwrap().values().map(|s| s.len() as u64).sum::<u64>());
    let mut all = vec![];
    for n in NETS {
        for m in [CloseMethod::OpretFirst, CloseMethod::TapretFirst] {
            for a in payloads(ctx.thorough) {
                all.push(XChainNet::with(n, Beneficiary::WitnessVout(Pay2Vout { method: m, address: a })));
            }
        }
        for s in seals() {
            all.push(XChainNet::with(n, Beneficiary::BlindedSeal(s)));
        }
    }
    ctx.sample(all[7].to_string());
    ctx.sample(all[all.len() - 1].to_string());
    ctx.run(&all, |b| format!("beneficiary/{b}"), |b, _| {
        ctx.step();
        ctx.trace();
        beneficiary(ctx, *b)
    });
    // all distinct beneficiaries have distinct texts
    ctx.run(&[0], |_| "distinct".into(), |_, _| {
        let mut seen = BTreeMap::new();
        for b in &all {
            if let Some(o) = seen.insert(b.to_string(), *b) {
                ensure!(o == *b, "collision", "{o:?} and {b:?} have the same text {b}");
            }
        }
        Ok(())
    });
    // all prefixes of the byte form
    let heads: Vec<(u8, u8)> = (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| (a, b))).collect();
    let chunks: Vec<&[(u8, u8)]> = heads.chunks(2048).collect();
    ctx.run(&chunks, |c| format!("bytes/{:02x}", c[0].0), |c, _| {
        for (a, b) in *c {
            for (pi, pat) in [[1u8; 32], [0; 32], [0xFF; 32], {
                let mut x = [0; 32];
                x[31] = 1;
                x
            }]
            .into_iter()
            .enumerate()
            {
                ctx.step();
                let mut d = [0u8; 34];
                d[0] = *a;
                d[1] = *b;
                d[2..].copy_from_slice(&pat);
                match Pay2Vout::try_from(d) {
                    Ok(p) => {
                        ensure!((0..=1).contains(a) && (1..=5).contains(b), "byte-kind", "{a:02x}{b:02x} accepted as {p:?}");
                        let again = bytes(&p);
                        ensure!(again[..22] == d[..22], "byte-form", "{d:02x?} is {p:?}");
                        if *b >= 4 {
                            ensure!(again == d, "byte-form", "{d:02x?} is {p:?}");
                        }
                        ctx.outcome("bytes-accepted");
                    }
                    Err(_) => {
                        let tr_invalid = *b == 5 && OutputPk::from_byte_array(pat).is_err();
                        ensure!(!((0..=1).contains(a) && (1..=5).contains(b)) || tr_invalid, "byte-refused", "{a:02x}{b:02x}/{pi}");
                        ctx.outcome("bytes-refused");
                    }
                }
            }
        }
        Ok(())
    });
    // single-character damage of the text is refused or at least never yields another network/method/kind silently
    let some: Vec<XChainNet<Beneficiary>> = all.clone();
    ctx.run(&some, |b| format!("damage/{b}"), |b, _| {
        let s = b.to_string();
        let rest_at = s.find(':').unwrap() + 1;
        for (i, ch) in s.char_indices() {
            for r in ['a', 'B', '0', '$', '~', '!', ':', '-'] {
                if r == ch {
                    continue;
                }
                ctx.step();
                let mut t = s.clone();
                t.replace_range(i..i + ch.len_utf8(), &r.to_string());
                if let Ok(p) = guard("damage", || Ok(XChainNet::<Beneficiary>::from_str(&t)))? {
                    if i >= rest_at && matches!(b.into_inner(), Beneficiary::WitnessVout(_)) {
                        ensure!(p == *b, "damage", "{s} altered to {t} reads as another beneficiary {p:?}");
                    }
                    ctx.outcome("damage-harmless");
                } else {
                    ctx.outcome("damage-refused");
                }
            }
        }
        Ok(())
    });
    ctx.finish(
        "exploration",
        "all networks x address kinds x closing methods x boundary payloads, all two-byte heads of the byte form, all network names up to the length bound, all single-character substitutions from 8 characters in the text of every beneficiary; non-trivial = distinct beneficiary text",
        &["baid64 checksum collisions (32 bit) do not occur within the enumerated substitutions"],
    )
}
