//! Invoices: format/parse round trips over a product of field alphabets and
//! over all single-character edits and short texts.

use std::str::FromStr;

use bp::seals::txout::CloseMethod;
use rgbinvoice::{
    Allocation, Amount, Beneficiary, InvoiceState, NonFungible, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, RgbTransport, XChainNet,
};
use rgbstd::{AttachId, ContractId, SecretSeal};
use strict_encoding::{FieldName, TypeName};

use super::p27::{payloads, NETS};
use crate::core::*;

fn contracts() -> Vec<Option<ContractId>> {
    let mut inc = [0u8; 32];
    inc.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8 * 7);
    vec![None, Some(ContractId::from([0u8; 32])), Some(ContractId::from([0xFF; 32])), Some(ContractId::from(inc))]
}

fn states() -> Vec<InvoiceState> {
    let mut v = vec![InvoiceState::Void];
    for a in [0u64, 1, 31, 32, 100, 255, 256, 65535, 65536, 1 << 40, u64::MAX >> 8, (u64::MAX >> 8) + 1, u64::MAX] {
        v.push(InvoiceState::Amount(Amount::from(a)));
    }
    for (i, f) in [(0u32, 0u64), (0, 1), (1, 0), (1, 1), (u32::MAX, u64::MAX), (7, 100)] {
        v.push(InvoiceState::Data(NonFungible::RGB21(Allocation::with(i, f))));
    }
    for b in [[0u8; 32], [0xFF; 32], [0x11; 32], [0x86; 32]] {
        v.push(InvoiceState::Attach(AttachId::from(b)));
    }
    // attachment identifiers with every leading byte
    for b in 0..=255u8 {
        let mut a = [0u8; 32];
        a[0] = b;
        a[31] = !b;
        v.push(InvoiceState::Attach(AttachId::from(a)));
    }
    v
}

fn transports() -> Vec<Vec<RgbTransport>> {
    let h = |s: &str| s.to_string();
    let single = vec![
        RgbTransport::JsonRpc { tls: false, host: h("host.example.com") },
        RgbTransport::JsonRpc { tls: true, host: h("127.0.0.1:3000") },
        RgbTransport::RestHttp { tls: false, host: h("host/path?x=1&y=2#frag") },
        RgbTransport::RestHttp { tls: true, host: h("[fe80::1%eth0]:80") },
        RgbTransport::WebSockets { tls: false, host: h("a b") },
        RgbTransport::WebSockets { tls: true, host: h("ünï") },
        RgbTransport::JsonRpc { tls: false, host: h("u:p@h://x") },
        RgbTransport::Storm {},
        RgbTransport::UnspecifiedMeans,
    ];
    let mut v: Vec<Vec<RgbTransport>> = vec![vec![]];
    v.extend(single.iter().map(|t| vec![t.clone()]));
    for a in &single {
        for b in &single {
            v.push(vec![a.clone(), b.clone()]);
        }
    }
    v
}

fn queries() -> Vec<Vec<(String, String)>> {
    let mut out = vec![vec![]];
    // every ASCII character, and some beyond, in key and in value
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend(['é', '€', '\u{10FFFF}', '\u{85}']);
    for c in chars {
        out.push(vec![(format!("k{c}"), "v".into())]);
        out.push(vec![("k".into(), format!("{c}v"))]);
        out.push(vec![(c.to_string(), c.to_string())]);
    }
    out.push(vec![("".into(), "".into())]);
    out.push(vec![("a".into(), "".into())]);
    out.push(vec![("a".into(), "1".into()), ("b".into(), "2".into()), ("A".into(), "3".into())]);
    out.push(vec![("b".into(), "%41".into()), ("a".into(), "%".into())]);
    out.push(vec![("z%41".into(), "+ +".into()), ("a=b&c".into(), "x=y&z".into())]);
    out
}

fn round(ctx: &Ctx, inv: &RgbInvoice) -> R {
    ctx.step();
    for (form, text) in [("plain", format!("{inv}")), ("compact", format!("{inv:#}"))] {
        match RgbInvoice::from_str(&text) {
            Ok(back) => {
                ensure!(
                    back == *inv,
                    format!("roundtrip-{form}"),
                    "{inv:?}\n printed as {text}\n read as {back:?}"
                );
                let again = if form == "plain" { format!("{back}") } else { format!("{back:#}") };
                ensure!(again == text, format!("reprint-{form}"), "{text} then {again}");
            }
            Err(e) => fail!(format!("refused-{form}"), "{inv:?}\n printed as {text}\n refused: {e:?}"),
        }
    }
    ctx.state(&inv.to_string());
    Ok(())
}

/// Whatever the parser accepts must be stable.
fn stable(ctx: &Ctx, text: &str) -> R {
    ctx.step();
    match guard("parse", || Ok(RgbInvoice::from_str(text)))? {
        Ok(inv) => {
            ctx.outcome("edit-accepted");
            let t = guard("format", || Ok(inv.to_string()))?;
            match RgbInvoice::from_str(&t) {
                Ok(back) => ensure!(back == inv, "stable", "{text}\n read as {inv:?}\n printed {t}\n read as {back:?}"),
                Err(e) => fail!("stable-refused", "{text}\n read as {inv:?}\n printed {t}\n refused: {e:?}"),
            }
        }
        Err(_) => ctx.outcome("edit-refused"),
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let seal = XChainNet::BitcoinMainnet(Beneficiary::BlindedSeal(SecretSeal::from([0x35; 32])));
    let mut bens = vec![];
    for n in NETS {
        bens.push(XChainNet::with(n, Beneficiary::BlindedSeal(SecretSeal::from([0x35; 32]))));
        for m in [CloseMethod::OpretFirst, CloseMethod::TapretFirst] {
            for a in payloads(false).into_iter().skip(10) {
                bens.push(XChainNet::with(n, Beneficiary::WitnessVout(Pay2Vout { method: m, address: a })));
            }
        }
    }
    let ifaces = [None, Some("RGB20"), Some("A"), Some("LabAsset_v1")];
    let ops = [None, Some("transfer"), Some("a"), Some("_x")];
    let asgs = [None, Some("assetOwner"), Some("b")];
    let expiries = [None, Some(0), Some(1), Some(-1), Some(i64::MIN), Some(i64::MAX), Some(1682086371)];

    let base = |c: Option<ContractId>, i: Option<&'static str>, b: XChainNet<Beneficiary>| {
        let mut x = match c {
            Some(c) => RgbInvoiceBuilder::with(c, b),
            None => RgbInvoiceBuilder::new(b),
        };
        if let Some(i) = i {
            x = x.set_interface(TypeName::from(i));
        }
        x
    };

    // 1. product of path fields
    let mut grid = vec![];
    for c in contracts() {
        for i in ifaces {
            for o in ops {
                for a in asgs {
                    grid.push((c, i, o, a));
                }
            }
        }
    }
    let sts = states();
    let key = |(c, i, o, a): &(Option<ContractId>, Option<&str>, Option<&str>, Option<&str>)| {
        format!("path/{}/{}/{}/{}", c.map(|c| c.to_string()).unwrap_or_default(), i.unwrap_or("~"), o.unwrap_or("~"), a.unwrap_or("~"))
    };
    ctx.sample(format!("{} path combinations x {} states x {} beneficiaries", grid.len(), sts.len(), bens.len()));
    ctx.run(&grid, key, |(c, i, o, a), _| {
        for (n, st) in sts.iter().enumerate() {
            let bs: &[_] = if n < 24 && (ctx.thorough || (o.is_none() && a.is_none())) { &bens } else { &bens[..1] };
            for b in bs {
                let mut x = base(*c, *i, *b);
                if let Some(o) = o {
                    x = x.set_operation(FieldName::from(*o));
                }
                if let Some(a) = a {
                    x = x.set_assignment(FieldName::from(*a));
                }
                x = match st {
                    InvoiceState::Void => x,
                    InvoiceState::Amount(v) => x.set_amount_raw(*v),
                    InvoiceState::Data(NonFungible::RGB21(al)) => x.set_allocation_raw(*al),
                    _ => x,
                };
                let mut inv = x.finish();
                inv.owned_state = st.clone();
                if c.is_some() && i.is_none() {
                    // a contract without an interface is documented as invalid text
                    ctx.outcome("contract-without-interface");
                    ensure!(RgbInvoice::from_str(&inv.to_string()).is_err(), "no-iface", "{inv} accepted");
                    continue;
                }
                round(ctx, &inv)?;
                ctx.trace();
            }
        }
        Ok(())
    });

    // 2. query part: expiry x transports x unknown parameters
    let mut grid = vec![];
    for (ti, t) in transports().into_iter().enumerate() {
        for e in expiries {
            grid.push((ti, t.clone(), e));
        }
    }
    let qs = queries();
    ctx.run(&grid, |(ti, _, e)| format!("query/{ti}/{e:?}"), |(_, t, e), _| {
        for split in [false, true] {
            let mut x = base(None, Some("RGB20"), seal).set_amount_raw(100u64);
            if let Some(e) = e {
                x = x.set_expiry_timestamp(*e);
            }
            if split {
                for t in t {
                    x = x.add_transport_raw(t.clone());
                }
            } else {
                x = x.add_transports_raw(t.clone());
            }
            let inv = x.finish();
            let subset: Vec<&Vec<(String, String)>> =
                qs.iter().collect();
            for q in subset {
                let mut inv = inv.clone();
                inv.unknown_query = q.iter().cloned().collect();
                round(ctx, &inv)?;
                ctx.trace();
            }
        }
        Ok(())
    });

    // 3. transports given as text: accepted ones survive, alone and in lists
    let mut texts = vec![];
    for scheme in ["rpc", "rpcs", "http", "https", "ws", "wss", "storm", "ftp", "", "RPC"] {
        for sep in ["://", ":/", ":", "://://"] {
            for host in ["", "h", "h:1", "a,b", ",", "h,", "%2C", "a%", "_/", "h/p?q=1"] {
                texts.push(format!("{scheme}{sep}{host}"));
            }
        }
    }
    ctx.run(&texts, |t| format!("transport/{t}"), |t, _| {
        let x = base(None, Some("RGB20"), seal);
        match x.clone().add_transport(t) {
            Ok(b) => {
                let inv = b.finish();
                ctx.outcome("transport-accepted");
                round(ctx, &inv)?;
                let list = x.clone().add_transports(["rpc://first", t.as_str()]).map_err(|e| Fail::new("list-refused", format!("{t}: {:?}", e.1)))?;
                round(ctx, &list.finish())?;
            }
            Err((b, _)) => {
                ctx.outcome("transport-refused");
                ensure!(b == x, "transport-error", "refusal of {t} changed the invoice");
                let r = x.clone().add_transports(["rpc://first", t.as_str()]);
                ensure!(r.is_err(), "transport-list", "{t} refused alone but accepted in a list");
            }
        }
        Ok(())
    });

    // 4. every single-character edit of representative texts
    let cid = contracts()[3];
    let mut reps = vec![];
    reps.push(base(cid, Some("RGB20"), seal).set_amount_raw(100u64).set_expiry_timestamp(1682086371)
        .add_transport("rpcs://host:1").unwrap().finish());
    reps.push(base(None, None, bens[3]).finish());
    reps.push(base(None, Some("RGB21"), bens[9]).set_allocation_raw(Allocation::with(1u32, 2u64)).finish());
    let mut r = base(cid, Some("RGB20"), bens[20]).set_operation("op").set_assignment("asg").finish();
    r.unknown_query = [("k y".to_string(), "v%".to_string()), ("b".to_string(), "".to_string())].into_iter().collect();
    reps.push(r);
    let mut edits = vec![];
    for (ri, inv) in reps.iter().enumerate() {
        let t = inv.to_string();
        for (pos, _) in t.char_indices() {
            edits.push((ri, t.clone(), pos));
        }
    }
    ctx.run(&edits, |(r, _, p)| format!("edit/{r}/{p}"), |(_, t, p), _| {
        let mut cut = t.clone();
        cut.truncate(*p);
        stable(ctx, &cut)?;
        let ch = t[*p..].chars().next().unwrap();
        let mut del = t.clone();
        del.replace_range(*p..*p + ch.len_utf8(), "");
        stable(ctx, &del)?;
        for c in (0x20u8..0x7F).map(|c| c as char).chain(['\0', '\n', 'é']) {
            let mut sub = t.clone();
            sub.replace_range(*p..*p + ch.len_utf8(), &c.to_string());
            stable(ctx, &sub)?;
            let mut ins = t.clone();
            ins.insert(*p, c);
            stable(ctx, &ins)?;
        }
        Ok(())
    });

    // 5. all short texts over the delimiters, bare and around a valid core
    let alpha: Vec<char> = "rgb:/~+?=&%@1a".chars().collect();
    let mut level = vec![String::new()];
    let mut short = level.clone();
    for _ in 0..if ctx.thorough { 5 } else { 4 } {
        level = level.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        short.extend(level.iter().cloned());
    }
    let ben = seal.to_string();
    let chunks: Vec<&[String]> = short.chunks(1500).collect();
    ctx.run(&chunks, |c| format!("short/{:?}", c[0]), |c, _| {
        for s in *c {
            stable(ctx, s)?;
            stable(ctx, &format!("rgb:{s}"))?;
            if s.len() <= 4 {
                stable(ctx, &format!("rgb:~/~/{s}{ben}"))?;
                stable(ctx, &format!("rgb:~/RGB20/{ben}{s}"))?;
                stable(ctx, &format!("rgb:~/~/{s}/{ben}?{s}"))?;
            }
        }
        Ok(())
    });
    ctx.finish(
        "exploration",
        "full product of path fields, of query fields and of characters in query keys/values; all single-character deletions, truncations, insertions and substitutions of 4 texts; all texts up to the length bound over delimiters; non-trivial = distinct invoice text that round-tripped",
        &[
            "an invoice naming a contract names an interface too (documented parse rule)",
            "query keys of the format itself are not used as unknown parameters",
            "transport hosts are non-empty and contain no list separator",
        ],
    )
}
