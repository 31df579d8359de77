//! Standard value types: who is accepted, round trips of all forms, laws of
//! equality and order.

use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::OnceLock;

use amplify::confinement::{Confined, SmallBlob};
use amplify::{ByteArray, Bytes32};
use bp::{Outpoint, Txid};
use rgbinvoice::{Allocation, Amount, OwnedFraction, Precision, TokenIndex};
use rgbstd::stl::*;
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader, StrictWriter};
use strict_types::{StrictVal, TypeSystem};

use crate::core::{guard, Ctx, R};
use crate::lab::*;

fn enc<T: StrictEncode>(v: &T) -> Vec<u8> {
    v.strict_encode(StrictWriter::with(StreamWriter::in_memory::<0xFFFFFF>()))
        .expect("in memory")
        .unbox()
        .unconfine()
}
fn dec<T: StrictDecode>(bytes: &[u8]) -> Result<T, String> {
    let mut r = StrictReader::with(StreamReader::in_memory::<0xFFFFFF>(bytes));
    T::strict_decode(&mut r).map_err(|e| e.to_string())
}

fn types() -> &'static TypeSystem {
    static TYPES: OnceLock<TypeSystem> = OnceLock::new();
    TYPES.get_or_init(|| StandardTypes::new().type_system())
}

/// The value as a contract reads it back from its state.
fn typed(name: &'static str, bytes: &[u8]) -> R<StrictVal> {
    let id = sem(name);
    guard("typed value", || {
        types()
            .strict_deserialize_type(id, bytes)
            .map(|v| v.unbox())
            .map_err(|e| crate::core::Fail::new("typed", format!("{name} does not read as its own type: {e}")))
    })
}

/// A restricted text type.
#[derive(Clone, Copy, PartialEq)]
enum Text {
    Article,
    Ticker,
    Name,
    Media,
    Details,
    Terms,
}
use Text::*;
const TEXTS: [Text; 6] = [Article, Ticker, Name, Media, Details, Terms];

impl Text {
    fn name(self) -> &'static str {
        match self {
            Article => "article",
            Ticker => "ticker",
            Name => "name",
            Media => "media",
            Details => "details",
            Terms => "terms",
        }
    }
    fn max(self) -> usize {
        match self {
            Article => 32,
            Ticker => 8,
            Name => 40,
            Media => 64,
            Details => 255,
            Terms => 65535,
        }
    }
    fn min(self) -> usize { if self == Terms { 0 } else { 1 } }
    /// Bytes of the length in binary form.
    fn prefix(self) -> usize { if self == Terms { 2 } else { 1 } }
    fn ok_char(self, first: bool, c: char) -> bool {
        match self {
            Article | Ticker => c.is_ascii_alphabetic() || (!first && c.is_ascii_digit()),
            Name => (' '..='~').contains(&c),
            Media => c.is_ascii_lowercase() || (!first && (c.is_ascii_digit() || "!#$&+-.^_".contains(c))),
            Details | Terms => true,
        }
    }
    fn ok(self, s: &str) -> bool {
        (self.min()..=self.max()).contains(&s.len())
            && s.chars().enumerate().all(|(i, c)| self.ok_char(i == 0, c))
    }
}

fn text_of<T>(ctx: &Ctx, t: Text, s: &str) -> R
where
    T: FromStr + Display + Debug + AsRef<str> + Eq + Clone + StrictEncode + StrictDecode,
    T: serde::Serialize + serde::de::DeserializeOwned,
{
    let want = t.ok(s);
    let got = guard("from_str", || Ok(T::from_str(s).ok()))?;
    ensure!(
        got.is_some() == want,
        "accepted",
        "text {s:?} of {} bytes is {}",
        s.len(),
        if want { "refused" } else { "accepted" }
    );
    // binary form: length and bytes
    let mut raw = Vec::with_capacity(s.len() + 2);
    let fits = s.len() < 1 << (8 * t.prefix());
    raw.extend_from_slice(&(s.len() as u32).to_le_bytes()[..t.prefix()]);
    raw.extend_from_slice(s.as_bytes());
    if fits {
        let bin = guard("decode", || Ok(dec::<T>(&raw).ok()))?;
        ensure!(
            bin.is_some() == want,
            "decoded",
            "binary form of {s:?} is {}",
            if want { "refused" } else { "accepted" }
        );
        ensure!(bin == got, "decoded", "binary form of {s:?} reads {bin:?}");
    }
    let json = serde_json::to_string(s).expect("text");
    let js = guard("json", || Ok(serde_json::from_str::<T>(&json).ok()))?;
    ensure!(js.is_some() == want, "json", "JSON of {s:?} is {}", if want { "refused" } else { "accepted" });
    ensure!(js == got, "json", "JSON of {s:?} reads {js:?}");
    let Some(v) = got else {
        ctx.outcome(format!("{} refused", t.name()));
        return Ok(());
    };
    ensure!(v.as_ref() == s, "text", "{s:?} became {:?}", v.as_ref());
    ensure!(v.to_string() == s, "text", "{s:?} prints as {v}");
    ensure!(enc(&v) == raw, "encoded", "{s:?} is encoded as {:?}", enc(&v));
    ensure!(serde_json::to_string(&v).ok() == Some(json), "json", "{s:?} in JSON is {:?}", serde_json::to_string(&v));
    let val = match t {
        Article => typed("RGBContract.Article", &raw)?,
        Ticker => typed("RGBContract.Ticker", &raw)?,
        Name => typed("RGBContract.Name", &raw)?,
        Media => typed("RGBContract.MediaRegName", &raw)?,
        Details => typed("RGBContract.Details", &raw)?,
        Terms => typed("RGBContract.RicardianContract", &raw)?,
    };
    let back = guard("typed value", || {
        Ok(match t {
            Name => rgbstd::stl::Name::from_strict_val_unchecked(&val).to_string(),
            Details => rgbstd::stl::Details::from_strict_val_unchecked(&val).to_string(),
            Media => MediaRegName::from_strict_val_unchecked(&val).to_string(),
            Article | Ticker | Terms => val.unwrap_string(),
        })
    })?;
    ensure!(back == s, "typed", "{s:?} reads as {back:?} from its typed value");
    ctx.outcome(format!("{} accepted", t.name()));
    Ok(())
}

fn text(ctx: &Ctx, t: Text, s: &str) -> R {
    match t {
        Article => text_of::<rgbstd::stl::Article>(ctx, t, s)?,
        Ticker => text_of::<rgbstd::stl::Ticker>(ctx, t, s)?,
        Name => text_of::<rgbstd::stl::Name>(ctx, t, s)?,
        Media => text_of::<MediaRegName>(ctx, t, s)?,
        Details => text_of::<rgbstd::stl::Details>(ctx, t, s)?,
        Terms => text_of::<RicardianContract>(ctx, t, s)?,
    }
    // the other way to convert
    let owned = s.to_owned();
    let ok = guard("try_from", || {
        Ok(match t {
            Article => rgbstd::stl::Article::try_from(owned).map(|x| x.to_string()).ok(),
            Ticker => rgbstd::stl::Ticker::try_from(owned).map(|x| x.to_string()).ok(),
            Name => rgbstd::stl::Name::try_from(owned).map(|x| x.to_string()).ok(),
            Media => MediaRegName::try_from(owned).map(|x| x.to_string()).ok(),
            Details => rgbstd::stl::Details::try_from(owned).map(|x| x.to_string()).ok(),
            Terms => t.ok(s).then(|| s.to_string()),
        })
    })?;
    ensure!(ok.is_some() == t.ok(s), "accepted", "string {s:?} converts: {}", ok.is_some());
    ensure!(ok.map(|x| x == s).unwrap_or(true), "text", "{s:?} is changed by conversion");
    Ok(())
}

fn texts(t: Text, thorough: bool) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    v.insert(String::new());
    let wide: Vec<char> =
        (0..=0xFFu32).filter_map(char::from_u32).chain(['\u{100}', '\u{7ff}', '\u{800}', '€', '\u{ffff}', '😀']).collect();
    for a in &wide {
        v.insert(a.to_string());
        for b in &wide {
            v.insert(format!("{a}{b}"));
        }
    }
    let edge = [
        '@', 'A', 'M', 'Z', '[', '`', 'a', 'z', '{', '/', '0', '9', ':', ' ', '~', '\u{7f}', '\u{1f}', '!', '#', '%',
        '+', '-', '.', '_', '^', '\n', '\0', 'é', '😀',
    ];
    for a in edge {
        for b in edge {
            for c in edge {
                v.insert(format!("{a}{b}{c}"));
                if thorough {
                    for d in edge {
                        v.insert(format!("{a}{b}{c}{d}"));
                    }
                }
            }
        }
    }
    // lengths about the limits, with one other character at either end
    let max = t.max();
    let lens: Vec<usize> = if max < 300 { (1..=max + 3).collect() } else { vec![max - 3, max - 2, max - 1, max, max + 1, max + 2] };
    for n in lens {
        for fill in ["a", "Z", "0", "-", "é", "€", "😀"] {
            let s = fill.repeat(n);
            v.insert(s.clone());
            for x in ["a", "0", " ", "é", "\n"] {
                v.insert(format!("{x}{}", fill.repeat(n - 1)));
                v.insert(format!("{}{x}", fill.repeat(n - 1)));
            }
            // as many bytes as fit
            let mut m = fill.repeat(n / fill.len());
            v.insert(m.clone());
            while m.len() < n {
                m.push('a');
            }
            v.insert(m);
        }
    }
    v.into_iter().collect()
}

/// Round trips of a composite value; reading from the typed value is optional.
fn whole<T>(ctx: &Ctx, name: &'static str, v: &T, read: Option<fn(&StrictVal) -> T>) -> R
where
    T: Debug + Eq + StrictEncode + StrictDecode + serde::Serialize + serde::de::DeserializeOwned,
{
    let raw = enc(v);
    let back = guard("decode", || Ok(dec::<T>(&raw)))?;
    ensure!(back.as_ref().ok() == Some(v), "binary", "{name} {v:?} is decoded as {back:?}");
    ensure!(enc(back.as_ref().unwrap()) == raw, "binary", "{name} {v:?} is not encoded again alike");
    let val = typed(name, &raw)?;
    if let Some(read) = read {
        let got = guard("typed value", || Ok(read(&val)))?;
        ensure!(&got == v, "typed", "{name} {v:?} reads as {got:?} from its typed value");
        ensure!(enc(&got) == raw, "typed", "{name} {v:?} reads as {got:?} from its typed value");
    }
    let json = serde_json::to_string(v).expect("json");
    let got = guard("json", || Ok(serde_json::from_str::<T>(&json).map_err(|e| e.to_string())))?;
    ensure!(got.as_ref().ok() == Some(v), "json", "{name} {v:?} reads from JSON {json} as {got:?}");
    ensure!(enc(got.as_ref().unwrap()) == raw, "json", "{name} {v:?} reads from JSON {json} as {got:?}");
    // nothing shorter reads, nor is a longer one the same
    for n in 0..raw.len() {
        let cut = guard("decode", || Ok(dec::<T>(&raw[..n])))?;
        ensure!(cut.is_err(), "truncated", "{name} {v:?} cut to {n} bytes is accepted");
    }
    ctx.outcome(name);
    Ok(())
}

fn digest(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Laws of equality, order and hash over all triples.
fn laws<T: Ord + Hash + Debug + Sync>(ctx: &Ctx, name: &str, list: &[T]) {
    use std::cmp::Ordering::*;
    let n = list.len();
    let idx: Vec<usize> = (0..n).collect();
    ctx.run(&idx, |i| format!("law|{name}|{i}"), |i, k| {
        ctx.state(k);
        let a = &list[*i];
        for b in list {
            ctx.step();
            let o = a.cmp(b);
            ensure!(o == b.cmp(a).reverse(), "order", "{a:?} and {b:?} are not ordered either way");
            ensure!(a.partial_cmp(b) == Some(o), "order", "{a:?} and {b:?}: {:?} or {o:?}", a.partial_cmp(b));
            ensure!((a == b) == (o == Equal), "order", "{a:?} and {b:?}: equality {} but order {o:?}", a == b);
            ensure!((a == b) == (b == a), "equality", "{a:?} and {b:?}");
            ensure!(a != b || digest(a) == digest(b), "hash", "{a:?} and {b:?} are equal but hashed differently");
            for c in list {
                if o != Greater && b.cmp(c) != Greater {
                    ensure!(a.cmp(c) != Greater, "order", "{a:?} <= {b:?} <= {c:?} but not {a:?} <= {c:?}");
                }
                ensure!(!(a == b && b == c) || a == c, "equality", "{a:?} = {b:?} = {c:?}");
            }
        }
        ctx.outcome(format!("laws of {name}"));
        Ok(())
    });
}

fn medias() -> Vec<MediaType> {
    let reg = |s: &str| MediaRegName::from_str(s).expect("valid");
    let mut v = vec![];
    for ty in ["a", "text", "application", "z9!#$&+-.^_"] {
        for sub in [None, Some("plain"), Some("svg+xml"), Some("a")] {
            for cs in [None, Some("utf-8"), Some("a")] {
                v.push(MediaType { ty: reg(ty), subtype: sub.map(reg), charset: cs.map(reg) });
            }
        }
    }
    v.push(MediaType { ty: reg(&"m".repeat(64)), subtype: Some(reg(&"s".repeat(64))), charset: Some(reg(&"c".repeat(64))) });
    v
}
fn attachments() -> Vec<Attachment> {
    let mut v = vec![];
    for ty in medias() {
        for d in [[0u8; 32], [0xFF; 32], std::array::from_fn(|i| i as u8)] {
            v.push(Attachment { ty: ty.clone(), digest: Bytes32::from_byte_array(d) });
        }
    }
    v
}
fn proofs() -> Vec<ProofOfReserves> {
    let mut v = vec![];
    for t in [[0u8; 32], [0xFF; 32], std::array::from_fn(|i| i as u8)] {
        for vout in [0u32, 1, 256, u32::MAX] {
            for p in [vec![], vec![0], vec![0xFF; 3], vec![7; 256], vec![9; 65535]] {
                if p.len() > 300 && vout != 1 {
                    continue;
                }
                v.push(ProofOfReserves::new(
                    Outpoint::new(Txid::from_byte_array(t), vout),
                    SmallBlob::try_from(p).expect("fits"),
                ));
            }
        }
    }
    v
}
fn precisions() -> Vec<Precision> { (0..=18u8).map(|p| Precision::try_from(p).expect("precision")).collect() }

pub fn check(ctx: &Ctx) -> i32 {
    for t in TEXTS {
        let list = texts(t, ctx.thorough);
        ctx.run(
            &list,
            |s| {
                let short: String = s.chars().take(6).collect();
                let last = s.chars().last().unwrap_or(' ');
                format!("text|{}|{}|{short:?}|{last:?}", t.name(), s.len())
            },
            |s, k| {
                ctx.state(k);
                ctx.step();
                text(ctx, t, s)
            },
        );
    }

    // composite values
    macro_rules! each {
        ($name:expr, $list:expr, $read:expr) => {
            let list = $list;
            let idx: Vec<usize> = (0..list.len()).collect();
            ctx.run(&idx, |i| format!("value|{}|{i}", $name), |i, k| {
                ctx.state(k);
                ctx.step();
                whole(ctx, $name, &list[*i], $read)
            });
        };
    }
    let names = ["A", "Name", " ~", "My token #1"].map(|s| rgbstd::stl::Name::from_str(s).unwrap()).to_vec();
    let mut names = names;
    names.push(rgbstd::stl::Name::from_str(&"n".repeat(40)).unwrap());
    let mut details: Vec<Option<rgbstd::stl::Details>> = vec![None];
    details.extend(["d", "Details, even \n \u{0} 😀"].map(|s| Some(rgbstd::stl::Details::from_str(s).unwrap())));
    details.push(Some(rgbstd::stl::Details::from_str(&"d".repeat(255)).unwrap()));
    let mut specs = vec![];
    let mut assets = vec![];
    for n in &names {
        for d in &details {
            for p in precisions() {
                for a in [None, Some("A"), Some("The")] {
                    let article = a.map(|a| rgbstd::stl::Article::from_str(a).unwrap());
                    specs.push(ContractSpec { article, name: n.clone(), details: d.clone(), precision: p });
                }
                for t in ["T", "USDT", "a1234567"] {
                    let ticker = rgbstd::stl::Ticker::from_str(t).unwrap();
                    assets.push(AssetSpec { ticker, name: n.clone(), details: d.clone(), precision: p });
                }
            }
        }
    }
    // the constructors give what the fields say
    ctx.run(&assets, |a| format!("with|{}|{}|{:?}|{:?}", a.ticker, a.name, a.details.as_ref().map(|d| d.len()), a.precision), |a, _| {
        let w = AssetSpec::with(a.ticker(), a.name(), a.precision, a.details());
        ensure!(w.as_ref().ok() == Some(a), "with", "{a:?} is constructed as {w:?}");
        let c = ContractSpec::with(a.ticker(), a.name(), a.precision, a.details());
        let c = c.map_err(|e| crate::core::Fail::new("with", e.to_string()))?;
        ensure!(
            c.article() == Some(a.ticker()) && c.name() == a.name() && c.details() == a.details() && c.precision == a.precision,
            "with",
            "{a:?} is constructed as {c:?}"
        );
        Ok(())
    });
    each!("RGBContract.ContractSpec", specs, Some(ContractSpec::from_strict_val_unchecked));
    each!("RGBContract.AssetSpec", assets, Some(AssetSpec::from_strict_val_unchecked));
    each!("RGBContract.MediaType", medias(), Some(MediaType::from_strict_val_unchecked));
    each!("RGBContract.Attachment", attachments(), Some(Attachment::from_strict_val_unchecked));
    each!("RGBContract.ProofOfReserves", proofs().into_iter().filter(|p| p.proof.len() < 300).collect::<Vec<_>>(), Some(ProofOfReserves::from_strict_val_unchecked));
    let mut terms = vec![];
    for t in ["", "t", "Terms\n\u{0}😀"] {
        terms.push(ContractTerms { text: RicardianContract::from_str(t).unwrap(), media: None });
        for m in attachments() {
            terms.push(ContractTerms { text: RicardianContract::from_str(t).unwrap(), media: Some(m) });
        }
    }
    each!("RGBContract.ContractTerms", terms, Some(ContractTerms::from_strict_val_unchecked));
    let small: Vec<ProofOfReserves> = proofs().into_iter().filter(|p| p.proof.len() < 10).take(5).collect();
    let subsets: Vec<Vec<ProofOfReserves>> = (0..1u32 << small.len())
        .map(|m| (0..small.len()).filter(|i| m & (1 << i) != 0).map(|i| small[i].clone()).collect())
        .collect();
    each!("RGBContract.IssueMeta", subsets.iter().map(|s| IssueMeta { reserves: Confined::from_iter_checked(s.clone()) }).collect::<Vec<_>>(), None);
    each!("RGBContract.BurnMeta", subsets.iter().map(|s| BurnMeta { burn_proofs: Confined::from_iter_checked(s.clone()) }).collect::<Vec<_>>(), None);
    let nums = [0u64, 1, 9, 255, 256, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 1, u64::MAX];
    each!("RGBContract.Amount", nums.map(Amount::from).to_vec(), Some(Amount::from_strict_val_unchecked));
    each!("RGBContract.Precision", precisions(), Some(Precision::from_strict_val_unchecked));
    each!("RGBContract.OwnedFraction", nums.map(OwnedFraction::from).to_vec(), Some(OwnedFraction::from_strict_val_unchecked));
    let mut allocs = vec![];
    for t in [0u32, 1, 256, u32::MAX] {
        for n in nums {
            allocs.push(Allocation::with(TokenIndex::from(t), OwnedFraction::from(n)));
        }
    }
    each!("RGBContract.Allocation", allocs, None);

    // laws
    let words = [
        "A", "a", "B", "b", "Z", "z", "AA", "Aa", "aA", "aa", "AB", "ab", "aB", "Ab", "A0", "a0", "A9", "a9", "ABC", "abc",
        "aBc", "USDT", "usdt", "Usdt", "usdT", "a1234567", "A1234567", "zz", "ZZ", "zZ",
    ];
    macro_rules! words {
        ($t:ty, $name:expr, $filter:expr) => {
            let list: Vec<$t> = words.iter().filter(|w| $filter(w)).map(|w| <$t>::from_str(w).expect("valid")).collect();
            laws(ctx, $name, &list);
        };
    }
    let all = |_: &&&str| true;
    words!(rgbstd::stl::Ticker, "ticker", all);
    words!(rgbstd::stl::Article, "article", all);
    words!(rgbstd::stl::Name, "name", all);
    words!(rgbstd::stl::Details, "details", all);
    words!(MediaRegName, "media", |w: &&&str| w.chars().all(|c| !c.is_ascii_uppercase()));
    laws(ctx, "media type", &medias());
    laws(ctx, "attachment", &attachments());
    laws(ctx, "proof of reserves", &proofs());
    laws(ctx, "precision", &precisions());
    laws(ctx, "amount", &nums.map(Amount::from));
    // tickers do not depend on case
    ctx.run(&words, |w| format!("case|{w}"), |a, _| {
        for b in words {
            let same = a.eq_ignore_ascii_case(b);
            let (x, y) = (rgbstd::stl::Ticker::from_str(a).unwrap(), rgbstd::stl::Ticker::from_str(b).unwrap());
            ensure!((x == y) == same, "case", "tickers {a} and {b} are equal: {}", x == y);
        }
        Ok(())
    });

    ctx.finish(
        "exploration",
        "every text of one or two characters over Latin-1 and some wider characters, of three (thorough: four) over boundary characters, and of every length about the limit, for every restricted text type; products of field values for composite types; all triples of value sets for the laws; non-trivial = distinct text or value",
        &["the documented character sets and lengths are those of the type definitions", "lookup by borrowed text is not covered"],
    )
}
