//! Containers in files and texts: round trips, interrupted input and output,
//! every truncation, alteration of the text and confusion of the kind.

use std::io::{self, Read, Write};
use std::str::FromStr;

use rgbstd::containers::*;
use strict_encoding::StrictSerialize;

use crate::core::{guard, silence, Ctx, Sut, R};
use crate::lab::*;

#[derive(Clone)]
enum Any {
    K(Kit),
    C(Contract),
    T(Transfer),
}

fn id(x: &Any) -> String {
    match x {
        Any::K(x) => x.kit_id().to_string(),
        Any::C(x) => x.consignment_id().to_string(),
        Any::T(x) => x.consignment_id().to_string(),
    }
}

/// Gives the data in small portions.
struct Dribble<'a>(&'a [u8], usize, bool);
impl Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.2 = !self.2;
        if self.2 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Takes the data in small portions, and refuses to take more than a limit.
struct Sink {
    data: Vec<u8>,
    step: usize,
    limit: usize,
    zero: bool,
    intr: bool,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.intr = !self.intr;
        if self.intr {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(self.step).min(self.limit - self.data.len());
        if n == 0 && !buf.is_empty() && !self.zero {
            return Err(io::ErrorKind::StorageFull.into());
        }
        self.data.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn round<T: FileContent + StrictSerialize + FromStr + ToString + Clone + PartialEq>(
    ctx: &Ctx,
    x: &T,
    universal: UniversalFile,
    wid: impl Fn(&T) -> String,
) -> R
where
    T::Err: std::fmt::Display,
{
    let want = bytes(x);
    let same = |y: &T, how: &str| -> R {
        ctx.eval();
        ctx.outcome(how);
        crate::ensure!(bytes(y) == want && y == x, "read-differs", "{how}");
        crate::ensure!(wid(y) == wid(x), "id-differs", "{how}");
        Ok(())
    };
    let mut file = vec![];
    x.save(&mut file).sut("save")?;
    same(&T::load(&file[..]).sut("load")?, "binary")?;
    for step in [1, 3, 64] {
        same(&T::load(Dribble(&file, step, false)).sut("load in portions")?, "portions-read")?;
        let mut s = Sink { data: vec![], step, limit: usize::MAX, zero: false, intr: false };
        x.save(&mut s).sut("save in portions")?;
        crate::ensure!(s.data == file, "write-differs", "written in portions");
        ctx.outcome("portions-written");
    }
    let text = x.to_string();
    same(&T::from_str(&text).map_err(|e| e.to_string()).sut("read text")?, "text")?;
    same(&T::from_str(&text.replace('\n', "\r\n")).map_err(|e| e.to_string()).sut("read text with returns")?, "text-crlf")?;
    same(&T::from_str(&format!("Hello,\n\n{text}\n\nBye")).map_err(|e| e.to_string()).sut("read text in a letter")?, "text-letter")?;
    // files, also over an older longer file
    let dir = Scratch::new("p10");
    let path = dir.path().join("x");
    std::fs::write(&path, vec![7; file.len() + 100]).expect("scratch");
    x.save_file(&path).sut("save_file")?;
    same(&T::load_file(&path).sut("load_file")?, "file")?;
    std::fs::write(&path, vec![b'A'; text.len() + 100]).expect("scratch");
    x.save_armored(&path).sut("save_armored")?;
    same(&T::load_armored(&path).sut("load_armored")?, "armored")?;
    // any kind of file
    let inner = |u: &UniversalFile| match u {
        UniversalFile::Kit(x) => (0, bytes(x), x.to_string()),
        UniversalFile::Contract(x) => (1, bytes(x), x.to_string()),
        UniversalFile::Transfer(x) => (2, bytes(x), x.to_string()),
    };
    let want = inner(&universal);
    let mut ufile = vec![];
    universal.save(&mut ufile).sut("save any")?;
    crate::ensure!(ufile == file, "write-differs", "as a file of any kind");
    crate::ensure!(inner(&UniversalFile::load(&file[..]).sut("load any")?) == want, "read-differs", "as a file of any kind");
    universal.save_file(&path).sut("save any file")?;
    crate::ensure!(inner(&UniversalFile::load_file(&path).sut("load any file")?) == want, "read-differs", "as a file of any kind");
    crate::ensure!(universal.to_string() == text, "write-differs", "as a text of any kind");
    ctx.outcome("universal");
    Ok(())
}

/// Output which fails at every point, and input which ends at every point.
fn cut<T: FileContent + StrictSerialize>(ctx: &Ctx, x: &T, universal: &UniversalFile) -> R {
    let mut file = vec![];
    x.save(&mut file).sut("save")?;
    for n in 0..file.len() {
        ctx.eval();
        for zero in [false, true] {
            let r = guard("save", || {
                Ok(x.save(Sink { data: vec![], step: 1 << 20, limit: n, zero, intr: false }).is_err()
                    && universal.save(Sink { data: vec![], step: 1 << 20, limit: n, zero, intr: false }).is_err())
            })?;
            crate::ensure!(r, "failed-write-unnoticed", "after {n} bytes of {}", file.len());
        }
        ctx.distinct(&file[..n]);
        let r = guard("load", || Ok(T::load(&file[..n]).is_err() && UniversalFile::load(&file[..n]).is_err()))?;
        crate::ensure!(r, "truncation-unnoticed", "{n} bytes of {}", file.len());
        ctx.outcome("cut");
    }
    // the leading bytes
    for n in 0..7 {
        for b in 0..=255u8 {
            if file[n] != b {
                let mut bad = file.clone();
                bad[n] = b;
                let r = guard("load", || Ok(T::load(&bad[..]).is_err() && UniversalFile::load(&bad[..]).is_err()))?;
                crate::ensure!(r, "prefix-unnoticed", "byte {n} is {b}");
                ctx.eval();
            }
        }
    }
    Ok(())
}

fn alter<T: FileContent + StrictSerialize + FromStr + ToString>(ctx: &Ctx, x: &T) -> R {
    let want = bytes(x);
    let text = x.to_string();
    let chars: Vec<char> = text.chars().collect();
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let dir = Scratch::new("p10a");
    let path = dir.path().join("x");
    let probe = |t: &str, what: &str, file: bool| -> R {
        ctx.eval();
        ctx.distinct(t.as_bytes());
        let r = guard("read text", || Ok(T::from_str(t).ok().map(|y| bytes(&y))))?;
        ctx.outcome(if r.is_none() { "refused" } else { "accepted" });
        crate::ensure!(r.is_none() || r == Some(want.clone()), "alteration-unnoticed", "{what}");
        if file {
            std::fs::write(&path, t).expect("scratch");
            let r = guard("load_armored", || Ok(T::load_armored(&path).ok().map(|y| bytes(&y))))?;
            crate::ensure!(r.is_none() || r == Some(want.clone()), "alteration-unnoticed", "{what} (file)");
        }
        Ok(())
    };
    let new = ['A', '0', '~', ' ', '\n', '\t', ':', ';', ',', '=', '-', '\u{e9}'];
    let new = if ctx.thorough { &new[..] } else { &new[..4] };
    for i in 0..chars.len() {
        let (head, tail): (String, String) = (chars[..i].iter().collect(), chars[i + 1..].iter().collect());
        probe(&format!("{head}{tail}"), &format!("character {i} dropped"), i % 64 == 0)?;
        probe(&format!("{head}{0}{0}{tail}", chars[i]), &format!("character {i} doubled"), false)?;
        probe(&head, &format!("cut at {i}"), i % 64 == 0)?;
        for c in new.iter().chain(&[(chars[i] as u8 ^ 1) as char]) {
            if *c != chars[i] {
                probe(&format!("{head}{c}{tail}"), &format!("character {i} is {c:?}"), false)?;
            }
        }
        if i + 1 < chars.len() && chars[i] != chars[i + 1] {
            let rest: String = chars[i + 2..].iter().collect();
            probe(&format!("{head}{}{}{rest}", chars[i + 1], chars[i]), &format!("characters {i} swapped"), false)?;
        }
    }
    for i in 0..lines.len() {
        let mut l = lines.clone();
        l.remove(i);
        probe(&l.concat(), &format!("line {i} dropped"), true)?;
        for j in 0..lines.len() {
            let mut l = lines.clone();
            l.insert(j, lines[i]);
            probe(&l.concat(), &format!("line {i} repeated at {j}"), true)?;
            l = lines.clone();
            l.swap(i, j);
            probe(&l.concat(), &format!("lines {i} and {j} swapped"), true)?;
            if j > i {
                l = lines.clone();
                l.drain(i..=j);
                probe(&l.concat(), &format!("lines {i} to {j} dropped"), false)?;
            }
        }
    }
    Ok(())
}

/// Each container read as each kind, in all forms.
fn confusion(ctx: &Ctx, x: &Any, y: &Any) -> R {
    let save = |x: &Any| {
        let mut v = vec![];
        match x {
            Any::K(x) => x.save(&mut v),
            Any::C(x) => x.save(&mut v),
            Any::T(x) => x.save(&mut v),
        }
        .sut("save")?;
        Ok::<_, crate::core::Fail>(v)
    };
    let text = |x: &Any| match x {
        Any::K(x) => x.to_string(),
        Any::C(x) => x.to_string(),
        Any::T(x) => x.to_string(),
    };
    let kind = |x: &Any| match x {
        Any::K(_) => 0,
        Any::C(_) => 1,
        Any::T(_) => 2,
    };
    let dir = Scratch::new("p10k");
    let path = dir.path().join("x");
    let (kx, ky) = (kind(x), kind(y));
    // content of one with the magic of another
    let (fx, fy) = (save(x)?, save(y)?);
    let mixed = [&fy[..7], &fx[7..]].concat();
    for k in 0..3 {
        for (file, is) in [(&fx, kx == k), (&mixed, kx == k && ky == k)] {
            ctx.eval();
            let r = guard("load", || {
                Ok(match k {
                    0 => Kit::load(&file[..]).is_ok(),
                    1 => Contract::load(&file[..]).is_ok(),
                    _ => Transfer::load(&file[..]).is_ok(),
                })
            })?;
            crate::ensure!(r == is, "kind-confused", "file of kind {kx} marked {ky} read as {k}");
            std::fs::write(&path, file).expect("scratch");
            let r = guard("load_file", || {
                Ok(match k {
                    0 => Kit::load_file(&path).is_ok(),
                    1 => Contract::load_file(&path).is_ok(),
                    _ => Transfer::load_file(&path).is_ok(),
                })
            })?;
            crate::ensure!(r == is, "kind-confused", "file of kind {kx} marked {ky} read as {k}");
        }
        let t = text(x);
        let r = guard("read text", || {
            Ok(match k {
                0 => Kit::from_str(&t).is_ok(),
                1 => Contract::from_str(&t).is_ok(),
                _ => Transfer::from_str(&t).is_ok(),
            })
        })?;
        crate::ensure!(r == (k == kx), "kind-confused", "text of kind {kx} read as {k}");
        std::fs::write(&path, &t).expect("scratch");
        let r = guard("load_armored", || {
            Ok(match k {
                0 => Kit::load_armored(&path).is_ok(),
                1 => Contract::load_armored(&path).is_ok(),
                _ => Transfer::load_armored(&path).is_ok(),
            })
        })?;
        crate::ensure!(r == (k == kx), "kind-confused", "armored file of kind {kx} read as {k}");
        ctx.outcome(format!("kind-{}", k == kx));
    }
    let r = guard("load", || Ok(UniversalFile::load(&mixed[..]).is_ok()))?;
    crate::ensure!(r == (kx == ky), "kind-confused", "file of kind {kx} marked {ky}");
    // a container made to state another kind
    Ok(())
}

fn family(thorough: bool, bare: bool) -> R<Vec<(String, Any)>> {
    let mut v: Vec<(String, Any)> = kits(bare).into_iter().map(|(n, k)| (n, Any::K(k))).collect();
    let roots: &[Root] = if thorough {
        &[Root::One(OP), Root::One(TAP), Root::TwoMethods, Root::Kinds, Root::Shared, Root::Twin]
    } else {
        &[Root::One(OP), Root::Kinds, Root::Shared]
    };
    for root in roots {
        let (cs, ts, _) = consignments(root)?;
        let some = |n: &str, i: usize| !bare || (n.ends_with('0') && i % 3 != 2);
        let plans = [
            (1, 0, 0, 0, 0, 0),
            (0, 1, 0, 0, 0, 0),
            (2, 2, 1, 1, 1, 1),
            (3, 3, 2, 2, 2, 2),
            (0, 2, 0, 2, 0, 0),
            (2, 0, 3, 0, 0, 0),
        ];
        for (i, (ifaces, terminals, suppls, sigs, files, extensions)) in plans.into_iter().enumerate() {
            let a = Adorn { ifaces, terminals, suppls, sigs, files, extensions, bare };
            for (n, c) in &cs {
                if some(n, i) {
                    let mut c = c.clone();
                    adorn(&mut c, a);
                    v.push((format!("{n}-{i}"), Any::C(c)));
                }
            }
            for (n, c) in &ts {
                if some(n, i) {
                    let mut c = c.clone();
                    adorn(&mut c, a);
                    v.push((format!("{n}-{i}"), Any::T(c)));
                }
            }
        }
        if !bare {
            v.extend(cs.into_iter().map(|(n, c)| (n, Any::C(c))));
            v.extend(ts.into_iter().map(|(n, c)| (n, Any::T(c))));
        }
    }
    Ok(v)
}

pub fn check(ctx: &Ctx) -> i32 {
    let quiet = silence(); // the library warns of each range proof it writes
    let (mut full, mut bare) = (vec![], vec![]);
    ctx.case("family", || {
        full = family(ctx.thorough, false)?;
        bare = family(ctx.thorough, true)?;
        Ok(())
    });
    let all: Vec<_> = full.iter().map(|x| ("full", x)).chain(bare.iter().map(|x| ("bare", x))).collect();
    ctx.run(&all, |(s, x)| format!("round|{s}|{}", x.0), |(_, x), _| {
        ctx.sample(format!("{} {}", x.0, id(&x.1)));
        match &x.1 {
            Any::K(x) => round(ctx, x, x.clone().into(), |x| x.kit_id().to_string()),
            Any::C(x) => round(ctx, x, x.clone().into(), |x| x.consignment_id().to_string()),
            Any::T(x) => round(ctx, x, x.clone().into(), |x| x.consignment_id().to_string()),
        }
    });
    // the quick tier damages kits with two supplements and signatures, and
    // consignments with the least and the most of parts
    let few: Vec<_> = bare
        .iter()
        .filter(|(n, x)| {
            ctx.thorough || if matches!(x, Any::K(_)) { n.ends_with("d1-s2g2") } else { n.ends_with("-0") || n.ends_with("-3") }
        })
        .collect();
    ctx.run(&few, |x| format!("cut|{}", x.0), |x, _| match &x.1 {
        Any::K(x) => cut(ctx, x, &x.clone().into()),
        Any::C(x) => cut(ctx, x, &x.clone().into()),
        Any::T(x) => cut(ctx, x, &x.clone().into()),
    });
    let some: Vec<_> = few
        .iter()
        .copied()
        .filter(|(n, x)| ctx.thorough || if matches!(x, Any::K(_)) { n.starts_with("kit-111") } else { n.ends_with("-3") })
        .collect();
    ctx.run(&some, |x| format!("alter|{}", x.0), |x, _| match &x.1 {
        Any::K(x) => alter(ctx, x),
        Any::C(x) => alter(ctx, x),
        Any::T(x) => alter(ctx, x),
    });
    let pairs: Vec<_> = some.iter().flat_map(|x| some.iter().map(move |y| (*x, *y))).collect();
    ctx.run(&pairs, |(x, y)| format!("kind|{}|{}", x.0, y.0), |(x, y), _| confusion(ctx, &x.1, &y.1));
    drop(quiet);
    ctx.finish(
        "fault_enumeration",
        if ctx.thorough {
            "round trips of a family of kits, contracts and transfers with many combinations of parts in every form of storage; for each member without types and scripts: every length of failing writes and of truncation, every value of the seven leading bytes, every single character dropped, doubled, swapped or replaced by one of 13, every line or range of lines dropped, repeated or swapped; each pair of these read as the other's kind; non-trivial = distinct damaged file or text"
        } else {
            "round trips of a family of kits, contracts and transfers with many combinations of parts in every form of storage; for five kits and the consignments with the least and most parts, without types and scripts: every length of failing writes and of truncation and every value of the seven leading bytes; for one kit and the consignments with most parts: every single character dropped, doubled, swapped or replaced by one of 5, every line or range of lines dropped, repeated or swapped, and each pair of them read as the other's kind; non-trivial = distinct damaged file or text"
        },
        &["alterations inside of binary files are not detectable and not claimed", "altered characters are tried by reading texts; reading files is tried for every 64th of them and for lines"],
    )
}
