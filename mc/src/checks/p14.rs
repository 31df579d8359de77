//! Amounts: every value x precision x text form of a bounded grid against
//! 128-bit reference arithmetic.

use std::str::FromStr;

use rgbinvoice::{
    Amount, Beneficiary, CoinAmount, InvoiceState, OwnedFraction, Precision, RgbInvoiceBuilder, XChainNet,
};
use rgbstd::SecretSeal;
use strict_encoding::{StrictDeserialize, StrictSerialize};

use crate::core::*;

const P: [Precision; 19] = [
    Precision::Indivisible,
    Precision::Deci,
    Precision::Centi,
    Precision::Milli,
    Precision::DeciMilli,
    Precision::CentiMilli,
    Precision::Micro,
    Precision::DeciMicro,
    Precision::CentiMicro,
    Precision::Nano,
    Precision::DeciNano,
    Precision::CentiNano,
    Precision::Pico,
    Precision::DeciPico,
    Precision::CentiPico,
    Precision::Femto,
    Precision::DeciFemto,
    Precision::CentiFemto,
    Precision::Atto,
];

fn pow(d: usize) -> u128 { 10u128.pow(d as u32) }

fn values(thorough: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..if thorough { 300 } else { 70 }).collect();
    for d in 0..20u32 {
        let p = 10u128.pow(d);
        for k in [1u128, 2, 5, 9, 10, 11, 99, 101] {
            for x in [p * k - 1, p * k, p * k + 1] {
                if let Ok(x) = u64::try_from(x) {
                    v.push(x);
                }
            }
        }
        // digits 1,2,3,... with every trailing zero count
        for digits in [1u128, 12, 123, 1203, 1230045, 100001, 500, 507] {
            if let Ok(x) = u64::try_from(digits * p) {
                v.push(x);
            }
        }
    }
    for b in 0..64 {
        let x = 1u64 << b;
        v.extend([x - 1, x, x + 1, !x, !(x - 1)]);
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 3]);
    v.sort();
    v.dedup();
    v
}

fn beneficiary() -> XChainNet<Beneficiary> {
    XChainNet::BitcoinRegtest(Beneficiary::BlindedSeal(SecretSeal::from([7u8; 32])))
}

fn builder() -> RgbInvoiceBuilder { RgbInvoiceBuilder::rgb20_anything(beneficiary()) }

fn one_value(ctx: &Ctx, v: u64) -> R {
    let a = Amount::from(v);
    ensure!(a.value() == v, "value", "Amount::from({v}).value() = {}", a.value());
    let s = a.to_string();
    let b = Amount::from_str(&s).sut("amount-text-parse")?;
    ensure!(a == b, "amount-text", "{v} printed as {s} and read as {}", b.value());
    let ser = a.to_strict_serialized::<16>().sut("strict-encode")?;
    let back = Amount::from_strict_serialized::<16>(ser).sut("strict-decode")?;
    ensure!(a == back, "strict", "{v} decoded as {}", back.value());
    let fs = rgbstd::FungibleState::from(a);
    ensure!(fs.as_u64() == v && Amount::from(fs) == a, "fungible", "{v} as fungible state");
    let js = serde_json::to_string(&a).sut("json")?;
    ensure!(serde_json::from_str::<Amount>(&js).sut("json-read")? == a, "json", "{v} as {js}");
    for (i, p) in P.into_iter().enumerate() {
        ctx.step();
        let m = pow(i);
        ensure!(p.decimals() as usize == i && p.multiplier() as u128 == m, "multiplier", "{p:?}: {}", p.multiplier());
        let (int, fract) = a.split(p);
        ensure!(
            int as u128 * m + fract as u128 == v as u128 && (fract as u128) < m,
            "split",
            "{v} at {p:?} splits into {int}, {fract}"
        );
        ensure!(a.floor(p) as u128 == v as u128 / m, "floor", "{v} at {p:?}: {}", a.floor(p));
        ensure!(a.ceil(p) as u128 == (v as u128 + m - 1) / m, "ceil", "{v} at {p:?}: {}", a.ceil(p));
        let round = (2 * v as u128 + m) / (2 * m);
        ensure!(a.round(p) as u128 == round, "round", "{v} at {p:?}: {} not {round}", a.round(p));
        ensure!(a.rem(p) as u128 == v as u128 % m, "rem", "{v} at {p:?}");
        // whole coins to raw amount
        let want = v as u128 * m;
        let checked = Amount::with_precision_checked(v, p);
        let sat = p.saturating_convert(v);
        match u64::try_from(want) {
            Ok(w) => {
                ensure!(checked == Some(Amount::from(w)), "convert", "{v} coins at {p:?}: {checked:?}");
                ensure!(Amount::with_precision(v, p).value() == w, "convert", "{v} coins at {p:?} unchecked");
                ensure!(sat.value() == w, "convert", "{v} coins at {p:?} saturating");
                ctx.outcome("convert-exact");
            }
            Err(_) => {
                ensure!(checked.is_none(), "convert-overflow", "{v} coins at {p:?}: {checked:?}");
                ensure!(sat.value() == u64::MAX, "convert-overflow", "{v} coins at {p:?}: {sat:?}");
                ctx.outcome("convert-overflow");
            }
        }
        // coin amount and its texts
        let c = CoinAmount::new(a, p);
        ensure!(c.int() == int && c.fract() == fract && c.precision() == p, "coin", "{v} at {p:?}: {c:?}");
        let c2 = CoinAmount::with(int, fract, p).sut("coin-with")?;
        ensure!(c == c2, "coin-with", "{c:?} vs {c2:?}");
        for (name, text) in [
            ("plain", format!("{c}")),
            ("alt", format!("{c:#}")),
            ("alt_", format!("{c:_>#}")),
        ] {
            denotes(&text, v, i)?;
            let back = CoinAmount::from_str(&text).sut(&format!("coin-parse-{name}"))?;
            ensure!(back == c, format!("coin-text-{name}"), "{v} at {p:?} printed as {text:?}, read as {back:?}");
        }
        // invoices
        let inv = builder()
            .set_amount(int, fract, p)
            .map_err(|_| Fail::new("set-amount", format!("{int}.{fract} at {p:?} refused")))?
            .finish();
        ensure!(
            inv.owned_state == InvoiceState::Amount(a),
            "set-amount",
            "{int}.{fract} at {p:?} gives {:?}",
            inv.owned_state
        );
    }
    Ok(())
}

/// The decimal text denotes exactly `v / 10^decimals`.
fn denotes(text: &str, v: u64, decimals: usize) -> R {
    let body: String = text.split('~').next().unwrap().chars().filter(|c| *c != ' ' && *c != '_').collect();
    let (i, f) = body.split_once('.').unwrap_or((&body, ""));
    let ok = i.chars().all(|c| c.is_ascii_digit())
        && f.chars().all(|c| c.is_ascii_digit())
        && f.len() <= decimals
        && i.parse::<u128>().ok().zip(format!("{f:0<decimals$}0").parse::<u128>().ok())
            .map(|(i, f)| i * pow(decimals) + f / 10 == v as u128)
            .unwrap_or(false);
    ensure!(ok, "coin-display", "raw {v} with {decimals} decimals displayed as {text:?}");
    Ok(())
}

/// Reference reading of a decimal text: (value in units of 10^-precision).
fn reference(s: &str) -> Option<(u128, usize)> {
    let s: String = s.chars().filter(|c| *c != ' ' && *c != '_').collect();
    let (num, prec) = match s.split_once('~') {
        Some((n, p)) => (n.to_string(), Some(p.to_string())),
        None => (s, None),
    };
    let (i, f) = match num.split_once('.') {
        Some((i, f)) => (i.to_string(), Some(f.to_string())),
        None => (num, None),
    };
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    if !digits(&i) || f.as_ref().map(|f| !digits(f)).unwrap_or(false) {
        return None;
    }
    let f = f.unwrap_or_default();
    let prec = match prec {
        Some(p) if !digits(&p) => return None,
        Some(p) => p.parse::<usize>().ok()?,
        None => f.len(),
    };
    if prec > 18 || f.len() > prec {
        return None;
    }
    let i: u128 = i.parse::<u64>().ok()? as u128;
    let f: u128 = format!("{f:0<prec$}0").parse::<u128>().ok()? / 10;
    Some((i * pow(prec) + f, prec))
}

fn text(ctx: &Ctx, s: &str) -> R {
    let got = CoinAmount::from_str(s);
    match (got, reference(s)) {
        (Ok(c), Some((v, prec))) => {
            let val = c.int() as u128 * pow(c.precision().decimals() as usize) + c.fract() as u128;
            // equal as rational numbers
            let q = c.precision().decimals() as usize;
            ensure!(
                val * pow(prec.max(q) - q) == v * pow(prec.max(q) - prec),
                "text-value",
                "{s:?} read as {c:?}"
            );
            ensure!((c.fract() as u128) < pow(q), "text-value", "{s:?} read as {c:?}: fraction exceeds a unit");
            let t = format!("{c}");
            let again = CoinAmount::from_str(&t).sut("text-again")?;
            ensure!(again == c, "text-stable", "{s:?} -> {c:?} -> {t:?} -> {again:?}");
            let alt = format!("{c:#}");
            ensure!(!alt.is_empty(), "text-alt", "{s:?}");
            ctx.outcome("text-accepted");
            ctx.state(&format!("T{t}"));
        }
        (Ok(c), None) => {
            // Text outside of the documented grammar may only be accepted
            // without inventing a value.
            let q = c.precision().decimals() as usize;
            ensure!((c.fract() as u128) < pow(q), "text-fraction", "{s:?} accepted as {c:?}");
            let t = format!("{c}");
            let again = CoinAmount::from_str(&t).sut("text-again")?;
            ensure!(again == c, "text-stable", "{s:?} -> {c:?} -> {t:?} -> {again:?}");
            let s2: String = s.chars().filter(|c| *c != ' ' && *c != '_').collect();
            ensure!(
                s2.contains('+') || s2.ends_with('~'),
                "text-accepted",
                "{s:?} accepted as {c:?}"
            );
            ctx.outcome("text-lenient");
        }
        (Err(e), Some((v, p))) => fail!("text-refused", "{s:?} = {v}/10^{p} refused: {e}"),
        (Err(_), None) => ctx.outcome("text-refused"),
    }
    Ok(())
}

fn amount_text(ctx: &Ctx, s: &str) -> R {
    if let Ok(a) = Amount::from_str(s) {
        let t = a.to_string();
        let b = Amount::from_str(&t).sut("raw-again")?;
        ensure!(a == b, "raw-stable", "{s:?} -> {} -> {t} -> {}", a.value(), b.value());
        ctx.outcome("raw-accepted");
    } else {
        ctx.outcome("raw-refused");
    }
    Ok(())
}

fn pair(ctx: &Ctx, x: u64, y: u64) -> R {
    let (a, b) = (Amount::from(x), Amount::from(y));
    let (f, g) = (OwnedFraction::from(x), OwnedFraction::from(y));
    let add = x.checked_add(y);
    let sub = x.checked_sub(y);
    ensure!(a.checked_add(b).map(|v| v.value()) == add, "checked-add", "{x}+{y}");
    ensure!(a.checked_sub(b).map(|v| v.value()) == sub, "checked-sub", "{x}-{y}");
    ensure!(f.checked_add(g).map(|v| v.value()) == add, "fraction-add", "{x}+{y}");
    ensure!(f.checked_sub(g).map(|v| v.value()) == sub, "fraction-sub", "{x}-{y}");
    ensure!(a.saturating_add(b).value() == add.unwrap_or(u64::MAX), "sat-add", "{x}+{y}");
    ensure!(a.saturating_sub(b).value() == sub.unwrap_or(0), "sat-sub", "{x}-{y}");
    ensure!(f.saturating_add(g).value() == add.unwrap_or(u64::MAX), "sat-add", "{x}+{y}");
    ensure!(f.saturating_sub(g).value() == sub.unwrap_or(0), "sat-sub", "{x}-{y}");
    let mut c = a;
    let r = c.checked_add_assign(b);
    ensure!(r.is_some() == add.is_some() && c.value() == add.unwrap_or(x), "add-assign", "{x}+={y}: {c:?}");
    let mut c = a;
    let r = c.checked_sub_assign(b);
    ensure!(r.is_some() == sub.is_some() && c.value() == sub.unwrap_or(x), "sub-assign", "{x}-={y}: {c:?}");
    let mut c = f;
    let r = c.checked_add_assign(g);
    ensure!(r.is_some() == add.is_some() && c.value() == add.unwrap_or(x), "add-assign", "{x}+={y}: {c:?}");
    let mut c = f;
    let r = c.checked_sub_assign(g);
    ensure!(r.is_some() == sub.is_some() && c.value() == sub.unwrap_or(x), "sub-assign", "{x}-={y}: {c:?}");
    let mut c = a;
    c.saturating_add_assign(b);
    ensure!(c.value() == add.unwrap_or(u64::MAX), "sat-assign", "{x}+={y}");
    c = a;
    c.saturating_sub_assign(b);
    ensure!(c.value() == sub.unwrap_or(0), "sat-assign", "{x}-={y}");
    let mut c = f;
    c.saturating_add_assign(g);
    ensure!(c.value() == add.unwrap_or(u64::MAX), "sat-assign", "{x}+={y}");
    c = f;
    c.saturating_sub_assign(g);
    ensure!(c.value() == sub.unwrap_or(0), "sat-assign", "{x}-={y}");
    if let Some(w) = add {
        ensure!((a + b).value() == w && (f + g).value() == w, "plus", "{x}+{y}");
        ensure!([a, b].into_iter().sum::<Amount>().value() == w, "sum", "{x}+{y}");
        ensure!([x, y].into_iter().sum::<Amount>().value() == w, "sum", "{x}+{y}");
    }
    if let Some(w) = sub {
        ensure!((a - b).value() == w, "minus", "{x}-{y}");
    }
    ensure!(a.cmp(&b) == x.cmp(&y), "cmp", "{x} {y}");
    ctx.outcome(if add.is_some() { "add-exact" } else { "add-overflow" });
    Ok(())
}

/// Integer and fraction given separately: exact or refused.
fn parts(ctx: &Ctx, int: u64, fract: u64, i: usize) -> R {
    let p = P[i];
    let valid = (fract as u128) < pow(i);
    let c = CoinAmount::with(int, fract, p);
    ensure!(c.is_ok() == valid, "with", "CoinAmount::with({int}, {fract}, {p:?}): {c:?}");
    let want = int as u128 * pow(i) + fract as u128;
    let fits = valid && want <= u64::MAX as u128;
    match guard("set-amount", || Ok(builder().set_amount(int, fract, p)))? {
        Ok(b) => {
            ensure!(fits, "set-amount", "{int} + {fract}/10^{i} accepted");
            let st = b.finish().owned_state;
            ensure!(st == InvoiceState::Amount(Amount::from(want as u64)), "set-amount", "{int} + {fract}/10^{i}: {st:?}");
            ctx.outcome("invoice-amount");
        }
        Err(b) => {
            ensure!(!fits, "set-amount", "{int} + {fract}/10^{i} refused");
            ensure!(b == builder(), "set-amount", "refusal changed the invoice");
            ctx.outcome("invoice-refused");
        }
    }
    if let Ok(c) = c {
        let t = format!("{c}");
        let b = CoinAmount::from_str(&t).sut("coin-parse-plain")?;
        ensure!(b == c, "coin-text", "{c:?} -> {t} -> {b:?}");
    }
    Ok(())
}

fn approx(ctx: &Ctx, amount: f64, i: usize) -> R {
    let p = P[i];
    // exact value in units, where the float denotes one
    let scaled = amount * 10f64.powi(i as i32);
    let exact = amount.is_finite() && amount > 0.0 && scaled.fract() == 0.0 && scaled < 9e15;
    let r = guard("set-amount-approx", || Ok(unsafe { builder().set_amount_approx(amount, p) }))?;
    match r {
        Ok(b) => {
            ensure!(amount.is_finite() && amount > 0.0, "approx", "{amount} accepted");
            let InvoiceState::Amount(a) = b.finish().owned_state else {
                fail!("approx", "{amount}: no amount");
            };
            if exact {
                ensure!(a.value() == scaled as u64, "approx", "{amount} at {p:?} gives {}", a.value());
            } else {
                let err = (a.value() as f64 - scaled).abs();
                ensure!(err <= 1.0 || err / scaled < 1e-9, "approx", "{amount} at {p:?} gives {}", a.value());
            }
            ctx.outcome("approx-ok");
        }
        Err(_) => {
            ensure!(!exact, "approx", "{amount} at {p:?} refused");
            ctx.outcome("approx-refused");
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) -> i32 {
    let vals = values(ctx.thorough);
    ctx.sample(format!("{} values x 19 precisions, first {:?}, last {:?}", vals.len(), &vals[..3], vals.last()));
    ctx.run(&vals, |v| format!("value/{v}"), |v, _| {
        ctx.state(&format!("V{v}"));
        ctx.trace();
        one_value(ctx, *v)
    });
    // all texts up to a length over the alphabet of the grammar
    let alpha = ['0', '1', '9', '.', '~', ' ', '_', '-', '+', 'x'];
    let max = if ctx.thorough { 6 } else { 5 };
    let mut texts = vec![String::new()];
    let mut all: Vec<String> = vec![String::new()];
    for _ in 0..max {
        texts = texts.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        all.extend(texts.iter().cloned());
    }
    for i in ["0", "1", "10", "18446744073709551615", "18446744073709551616", "1 000", "00"] {
        for f in ["", ".", ".0", ".5", ".05", ".50", ".000005", ".000000000000000001", ".0000000000000000001",
            ".999999999999999999", ".18446744073709551616"] {
            for p in ["", "~", "~0", "~1", "~2", "~8", "~18", "~19", "~255", "~256", "~18446744073709551616", "~-1", "~08"] {
                all.push(format!("{i}{f}{p}"));
            }
        }
    }
    all.sort();
    all.dedup();
    ctx.sample(format!("{} decimal texts, e.g. {:?}", all.len(), &all[all.len() / 2..all.len() / 2 + 3]));
    let chunks: Vec<&[String]> = all.chunks(4000).collect();
    ctx.run(&chunks, |c| format!("texts/{:?}", c[0]), |c, _| {
        for s in *c {
            ctx.step();
            if let Err(e) = guard("coin-text", || text(ctx, s)) {
                ctx.violation(&format!("texts/{:?}", c[0]), Fail::new(e.sig, format!("text {s:?}: {}", e.detail)));
                break;
            }
        }
        Ok(())
    });
    // raw amount texts
    let alpha: Vec<char> = "abkmnABZY1lo-".chars().collect();
    let mut raw = vec![String::new()];
    let mut allraw = raw.clone();
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        raw = raw.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        allraw.extend(raw.iter().cloned());
    }
    for n in 10..16 {
        for c in &alpha {
            for e in &alpha {
                allraw.push(format!("{}{e}", c.to_string().repeat(n)));
            }
        }
    }
    ctx.run(&[0], |_| "raw-texts".into(), |_, _| {
        for s in &allraw {
            ctx.step();
            guard("raw-text", || amount_text(ctx, s)).map_err(|e| Fail::new(e.sig, format!("text {s:?}: {}", e.detail)))?;
        }
        Ok(())
    });
    // arithmetic on all pairs
    let pv: Vec<u64> = vals.iter().copied().filter(|v| {
        *v < 20 || v.wrapping_add(2) < 4 || v.is_power_of_two() || (v + 1).is_power_of_two() || v % 1_000_000_007 < 3 || *v > u64::MAX - 20
    }).collect();
    ctx.note("arithmetic_pairs", (pv.len() * pv.len()) as u64);
    ctx.run(&pv, |v| format!("pairs/{v}"), |x, _| {
        for y in &pv {
            ctx.step();
            pair(ctx, *x, *y)?;
        }
        Ok(())
    });
    // sums of triples saturate rather than wrap
    ctx.run(&[0], |_| "sums".into(), |_, _| {
        for x in &pv {
            for y in [0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63] {
                for z in [0u64, 1, u64::MAX] {
                    ctx.step();
                    let want = u64::try_from(*x as u128 + y as u128 + z as u128).unwrap_or(u64::MAX);
                    let s: Amount = [Amount::from(*x), y.into(), z.into()].into_iter().sum();
                    ensure!(s.value() == want, "sum3", "{x}+{y}+{z} = {s:?}");
                }
            }
        }
        Ok(())
    });
    // separately given parts
    let ints = [0, 1, 2, 9, 18, 19, 184, 1844, 18446744073, 18446744074, u64::MAX / 10, u64::MAX / 10 + 1, u64::MAX - 1, u64::MAX];
    let mut fr = vec![0u64, 1, 5, 9, 10, 11, 446744073709551615, 446744073709551616, 709551615, 709551616, u64::MAX];
    for d in 1..20u32 {
        fr.extend([10u64.pow(d) - 1, 10u64.pow(d), 10u64.pow(d) + 1, 5 * 10u64.pow(d - 1)]);
    }
    fr.sort();
    fr.dedup();
    let mut grid = vec![];
    for i in 0..19 {
        for int in ints {
            grid.push((i, int));
        }
    }
    ctx.run(&grid, |(i, n)| format!("parts/{n}/{i}"), |(i, n), _| {
        for f in &fr {
            ctx.step();
            parts(ctx, *n, *f, *i)?;
        }
        Ok(())
    });
    let floats = [
        0.0, -1.0, -0.0, 0.5, 0.25, 0.75, 0.125, 1.0, 1.5, 2.75, 10.0, 99.5, 1024.0625, 0.1, 0.29, 0.01, 0.999999999999,
        4503599627370496.0, 9007199254740992.0, 1.8446744073709552e19, 1e19, 1e20, 1e300, f64::MIN_POSITIVE,
        f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 123456.789,
    ];
    ctx.run(&floats, |v| format!("approx/{v}"), |v, _| {
        for i in 0..19 {
            ctx.step();
            approx(ctx, *v, i)?;
        }
        Ok(())
    });
    ctx.finish(
        "exploration",
        "all values of a boundary grid x all 19 precisions x all text forms; all decimal texts up to the length bound over the grammar alphabet; all pairs for arithmetic; non-trivial = distinct value or accepted text",
        &["128-bit integer arithmetic of the reference"],
    )
}
