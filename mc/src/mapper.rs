//! Mapping bitcode: M01 to M13.

use llvm_bitstream::Bitstream;
use llvm_mapper::record::DataLayout;
use llvm_mapper::Bitcode;
use llvm_support::StrtabRef;

use crate::alloc;
use crate::bits::{boundary_values, hex};
use crate::bitstream::wrap;
use crate::dl::{same, seen, Dl, Stop};
use crate::model::{
    bytes, check, encode, encode_with, mask, observe, observe_with, show, text, Doc, Enc, Mod, Node, Outcome, Ref, Style, B, GROUPS, IDENT, LAX, MODULE, PARAMATTR, PLAIN, R,
    STRICT, STRTAB, STYLES, SYMTAB, TYPES, VST,
};
use crate::runner::Ctx;
use crate::stream::{ref_parse, Entry, Term};
use crate::tables::{ATTRIBUTES, CALLING_CONVENTIONS};

fn ident() -> Node {
    B(IDENT, vec![R(1, text("LLVM15")), R(2, vec![0])])
}

fn strtab(b: &[u8]) -> Node {
    B(STRTAB, vec![R(1, bytes(b))])
}

fn symtab(b: &[u8]) -> Node {
    B(SYMTAB, vec![R(1, bytes(b))])
}

/// A type table with the right count.
fn types(mut t: Vec<Node>) -> Node {
    let n = t.iter().filter(|n| !matches!(n, R(19, _))).count() as u64;
    t.insert(0, R(1, vec![n]));
    B(TYPES, t)
}

fn no_types() -> Node {
    types(vec![])
}

fn vst() -> Node {
    B(VST, vec![])
}

/// A file with one module, which consists of these.
fn file(m: Vec<Node>, table: &[u8]) -> Doc {
    vec![ident(), B(MODULE, m), strtab(table)]
}

/// A module with a version, a type table, a symbol table, and these.
fn plain(extra: Vec<Node>) -> Doc {
    let mut m = vec![R(1, vec![2]), no_types(), vst()];
    m.extend(extra);
    file(m, b"strtab")
}

/// A module with these types.
fn typed(t: Node, extra: Vec<Node>, table: &[u8]) -> Doc {
    let mut m = vec![R(1, vec![2]), t, vst()];
    m.extend(extra);
    file(m, table)
}

fn run(c: &Ctx, d: &[Node], e: &Enc, r: Ref, m: u32) -> Result<(), String> {
    c.step();
    c.trace();
    c.transitions(1);
    match check(d, e, r, m).map_err(|err| format!("{err} [{:?} {} bits: {}]", e.style, e.width, show(d)))? {
        Outcome::Mapped => c.count("documents mapped", 1),
        Outcome::Rejected => c.count("documents rejected", 1),
        Outcome::Unspecified => c.count("documents whose result isn't specified", 1),
    }
    Ok(())
}

fn go(c: &Ctx, d: &[Node], m: u32) -> Result<(), String> {
    run(c, d, &PLAIN, LAX, m)
}

/// An encoding that varies with `n`.
fn enc(n: usize) -> Enc {
    Enc { width: [3, 4, 5, 8][n / 10 % 4], style: STYLES[n % 10] }
}

/// Every permutation of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

/// Every sequence of up to `n` numbers below `k`.
pub fn sequences(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for i in from..to {
            for x in 0..k {
                let mut s = all[i].clone();
                s.push(x);
                all.push(s);
            }
        }
        from = to;
    }
    all
}

// ---------------------------------------------------------------------------------------------
// M01

const TOP: u32 = mask::IDENT | mask::TABLES | mask::TRIPLE;

/// Top-level blocks with contents that say which ones they are.
fn top(kind: char, n: usize) -> Node {
    match kind {
        'I' => B(IDENT, vec![R(1, text(&format!("producer-{n}"))), R(2, vec![n as u64])]),
        'M' => B(MODULE, vec![R(1, vec![2]), R(2, text(&format!("triple-{n}"))), no_types(), vst()]),
        'T' => strtab(format!("strtab-{n}").as_bytes()),
        'Y' => symtab(format!("symtab-{n}").as_bytes()),
        _ => unreachable!(),
    }
}

fn tops(s: &str) -> Doc {
    s.chars().enumerate().map(|(i, k)| top(k, i)).collect()
}

/// Whether every continuation of this sequence is rejected for the same reason.
fn hopeless(s: &str) -> bool {
    let mut seen = None;
    for k in s.chars() {
        match (k, seen) {
            ('I', Some(false)) => return true,
            ('I', _) => seen = Some(false),
            ('M', Some(false)) => seen = Some(true),
            ('M', _) => return true,
            _ => {}
        }
    }
    false
}

pub fn m01(c: &mut Ctx) {
    fn dfs(c: &Ctx, s: &str, depth: usize) -> Result<(), String> {
        c.state(s);
        go(c, &tops(s), TOP)?;
        if depth == 0 || hopeless(s) {
            return Ok(());
        }
        for k in ['I', 'M', 'T', 'Y'] {
            dfs(c, &format!("{s}{k}"), depth - 1)?;
        }
        Ok(())
    }
    let depth = c.q(12, 14);
    let mut level = vec![String::new()];
    for n in 0..4 {
        let mut next = vec![];
        for s in &level {
            if n < 3 {
                c.case(|| format!("top-level blocks {s:?}"), |c| go(c, &tops(s), TOP));
            } else {
                c.case(|| format!("top-level blocks {s:?} and up to {} more", depth - n), |c| dfs(c, s, depth - n));
            }
            if !hopeless(s) {
                for k in ['I', 'M', 'T', 'Y'] {
                    next.push(format!("{s}{k}"));
                }
            }
        }
        level = next;
    }
    // Other blocks, and records, anywhere between.
    let good = ["IMT", "IMYT", "IMTIMT", "IMIMT", "IMTYIMYT", "IMTTYY", "TIMT", "YIMT", "IMIMIMTY"];
    for s in good {
        let base = tops(s);
        for at in 0..=base.len() {
            c.case(
                || format!("other blocks at {at} of {s}"),
                |c| {
                    let ids = (0..c.q(60, 1000)).chain([1 << 16, 1 << 31, (1 << 32) - 1, (1 << 32) + 8, (1 << 32) + 13, 1 << 63, u64::MAX]);
                    for id in ids.filter(|i| ![0, IDENT, MODULE, STRTAB, SYMTAB].contains(i)) {
                        let mut d = base.clone();
                        d.insert(at, B(id, vec![]));
                        go(c, &d, TOP)?;
                    }
                    Ok(())
                },
            );
            c.case(
                || format!("BLOCKINFO at {at} of {s}"),
                |c| {
                    for n in 0..4 {
                        let mut w = crate::stream::Writer::new();
                        for (i, node) in base.iter().enumerate() {
                            if i == at {
                                w.blockinfo(2, &vec![(8, vec![vec![crate::stream::AOp::Vbr(6)]]); n]);
                            }
                            crate::model::put(&mut w, std::slice::from_ref(node), &PLAIN);
                        }
                        if at == base.len() {
                            w.blockinfo(2, &vec![(8, vec![vec![crate::stream::AOp::Vbr(6)]]); n]);
                        }
                        c.trace();
                        let got = observe(&w.done().0);
                        crate::model::compare(&LAX.document(&base), &got, TOP)?;
                    }
                    Ok(())
                },
            );
            c.case(
                || format!("top-level record at {at} of {s}"),
                |c| {
                    for (code, f) in [(1, vec![2]), (2, vec![]), (8, vec![1, 2, 3])] {
                        let mut d = base.clone();
                        d.insert(at, R(code, f));
                        go(c, &d, TOP)?;
                    }
                    Ok(())
                },
            );
        }
        // Everything twice, and everything left out.
        c.case(
            || format!("{s}, each block repeated, left out or swapped"),
            |c| {
                for i in 0..base.len() {
                    let mut d = base.clone();
                    d.remove(i);
                    go(c, &d, TOP)?;
                    for j in 0..base.len() {
                        let mut d = base.clone();
                        d.insert(j, base[i].clone());
                        go(c, &d, TOP)?;
                        let mut d = base.clone();
                        d.swap(i, j);
                        go(c, &d, TOP)?;
                    }
                }
                Ok(())
            },
        );
    }
    // Many modules with tables of their own, or a shared one.
    c.case(
        || "many modules".into(),
        |c| {
            for n in 1..c.q(40, 200) {
                go(c, &tops(&"IMT".repeat(n)), TOP)?;
                go(c, &tops(&"IMYT".repeat(n)), TOP)?;
                go(c, &tops(&("IM".repeat(n) + "T")), TOP)?;
                go(c, &tops(&("IM".repeat(n) + "TY")), TOP)?;
                go(c, &tops(&("IM".repeat(n) + "YT")), TOP)?;
                go(c, &tops(&"IM".repeat(n)), TOP)?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// M02

const SITES: [&str; 10] = ["producer", "string table", "symbol table", "triple", "assembly", "dependent library", "section", "collector", "struct name", "opaque name"];

/// A file with this text somewhere.
fn site(s: usize, f: &[u64]) -> Doc {
    let f = f.to_vec();
    match s {
        0 => vec![B(IDENT, vec![R(1, f), R(2, vec![7])]), plain(vec![])[1].clone(), strtab(b"strtab")],
        1 => vec![ident(), plain(vec![])[1].clone(), B(STRTAB, vec![R(1, f)])],
        2 => vec![ident(), plain(vec![])[1].clone(), B(SYMTAB, vec![R(1, f)]), strtab(b"strtab")],
        3 => plain(vec![R(2, f)]),
        4 => plain(vec![R(4, f)]),
        5 => plain(vec![R(6, f), R(6, text("zz"))]),
        6 => plain(vec![R(5, text("zz")), R(5, f)]),
        7 => plain(vec![R(11, f)]),
        8 => typed(types(vec![R(7, vec![8]), R(19, f), R(20, vec![0, 0]), R(2, vec![])]), vec![], b"xx"),
        9 => typed(types(vec![R(7, vec![8]), R(19, f), R(6, vec![0]), R(2, vec![])]), vec![], b"xx"),
        _ => unreachable!(),
    }
}

/// Bytes around the boundaries of UTF-8's ranges.
const UTF8: [u8; 28] =
    [0, 1, b'\n', b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];

/// Sizes around those that some integer type can't hold.
/// Numbers of things: all small ones, and large ones around what integers can hold.
fn many(c: &Ctx) -> Vec<u64> {
    (3..c.q(70, 300)).chain([127, 128, 255, 256, 257, 65_535, 65_536, 65_537, 70_001]).collect()
}

/// The indexes below `n` that are looked at: all, if there aren't too many.
fn indexes(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = [0, 1, 2, 127, 128, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, n / 2, n - 2, n - 1].into_iter().filter(|k| *k < n).collect();
    if n < 1000 {
        v = (0..n).collect();
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Text of `n` characters, other than the same number of characters from elsewhere in it.
fn long_text(n: u64) -> Vec<u64> {
    (0..n).map(|i| 97 + (i + i / 26 + i / 6500) % 26).collect()
}

/// The explicit cases where a text of one byte should work.
fn single(c: &mut Ctx, sites: &[usize]) {
    for &s in sites {
        c.case(|| format!("{} \"a\"", SITES[s]), |c| run(c, &site(s, &[97]), &PLAIN, STRICT, mask::ALL));
    }
}

/// Texts of every length with a character that's special somewhere in every place.
fn odd_places(c: &mut Ctx, sites: &[usize], m: u32) {
    for &s in sites {
        for (part, ch) in [0u8, 1, 9, 10, 13, 32, 34, 45, 46, 47, 58, 92, 95, 127].chunks(7).enumerate() {
            c.case(
                || format!("{}: characters with a meaning elsewhere in every place of texts of every length, part {part}", SITES[s]),
                |c| {
                    for n in 2..c.q(33, 100) {
                        for at in 0..n {
                            for &ch in ch {
                                let mut t = long_text(n);
                                t[at as usize] = ch.into();
                                go(c, &site(s, &t), m)?;
                                // With another one at the end.
                                t[n as usize - 1] = ch.into();
                                go(c, &site(s, &t), m)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn m02(c: &mut Ctx) {
    for s in 0..SITES.len() {
        for hi in 0..16 {
            c.case(
                || format!("{}: every text of two bytes that starts with {hi:x}0 to {hi:x}f", SITES[s]),
                |c| {
                    for a in hi * 16..hi * 16 + 16 {
                        for b in 0..=255 {
                            run(c, &site(s, &[a, b]), &PLAIN, LAX, mask::ALL)?;
                            if (a + b) % 16 == 0 {
                                for i in 0..10 {
                                    run(c, &site(s, &[a, b]), &enc(i + 10 * (b as usize / 16)), LAX, mask::ALL)?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        for hi in 0..8 {
            c.case(
                || format!("{}: every two characters from {hi:x}0 on, at the start, at the end, twice, and inside of a text", SITES[s]),
                |c| {
                    for a in hi * 16..hi * 16 + 16 {
                        for b in 0..128 {
                            for t in [&[a, b, 120, 46, 49][..], &[120, 46, 49, a, b], &[a, b, a, b], &[120, a, b, 120]] {
                                go(c, &site(s, t), mask::ALL)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        for (i, a) in UTF8.iter().enumerate() {
            c.case(
                || format!("{}: texts of three bytes at the boundaries of UTF-8 that start with {a:02x}", SITES[s]),
                |c| {
                    for b in UTF8 {
                        for d in UTF8 {
                            go(c, &site(s, &bytes(&[*a, b, d])), mask::ALL)?;
                        }
                    }
                    Ok(())
                },
            );
            if s == 0 || c.thorough() || (s == 3 && i >= 20) {
                c.case(
                    || format!("{}: texts of four bytes at the boundaries of UTF-8 that start with {a:02x}", SITES[s]),
                    |c| {
                        for b in UTF8 {
                            for d in UTF8 {
                                for e in UTF8 {
                                    go(c, &site(s, &bytes(&[*a, b, d, e])), mask::ALL)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        for style in STYLES {
            c.case(
                || format!("{}: every length, as {style:?}", SITES[s]),
                |c| {
                    let mut lens: Vec<usize> = (0..c.q(70, 300)).collect();
                    lens.extend([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097]);
                    for n in lens {
                        let plain: Vec<u64> = (0..n).map(|i| b"aZ09._"[i % 6] as u64).collect();
                        let ascii: Vec<u64> = (0..n).map(|i| 1 + (i * 7 % 126) as u64).collect();
                        let raw: Vec<u64> = (0..n).map(|i| (i * 37 % 256) as u64).collect();
                        let wide: Vec<u64> = bytes("aé€😀".repeat(n / 10 + 1).as_bytes());
                        for t in [&plain, &ascii, &raw, &wide] {
                            for width in [4, 9] {
                                run(c, &site(s, t), &Enc { width, style }, LAX, mask::ALL)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("{}: one character, repeated", SITES[s]),
            |c| {
                for a in 0..=255 {
                    for n in (2..c.q(40, 140)).chain([63, 64, 65, 127, 128, 255, 256, 257]) {
                        go(c, &site(s, &vec![a; n]), mask::ALL)?;
                        let mut t = vec![a; n];
                        t[n / 2] = 120;
                        go(c, &site(s, &t), mask::ALL)?;
                    }
                }
                Ok(())
            },
        );
        for part in 0..c.q(8, 0x110) {
            let size = if c.thorough() { 0x1000 } else { 0x2000 };
            c.case(
                || format!("{}: every character from {:x} on, around others", SITES[s], part * size),
                |c| {
                    for ch in (part * size..(part + 1) * size).filter_map(char::from_u32) {
                        go(c, &site(s, &text(&format!("{ch}x{ch}{ch}y{ch}"))), mask::ALL)?;
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("{}: wide characters in every place of long texts", SITES[s]),
            |c| {
                for n in [10, 17, 33, 64, 65, 130, 257] {
                    for at in 0..=n {
                        for ch in ["é", "€", "😀", "\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{80}", "\u{ad}"] {
                            let t = "x86_64-a".repeat(40)[..at].to_string() + ch + &"-b.c\n".repeat(60)[..n - at];
                            go(c, &site(s, &text(&t)), mask::ALL)?;
                        }
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("{}: characters over 255", SITES[s]),
            |c| {
                let mut over: Vec<u64> = boundary_values().into_iter().filter(|v| *v > 255).collect();
                over.extend((1..=16).map(|k| (k << 8) + 0x61));
                over.extend((8..64).map(|k| (1u64 << k) + 0x61));
                for v in over {
                    for n in 1..6 {
                        for at in 0..n {
                            let mut f = vec![0x61; n];
                            f[at] = v;
                            for e in [PLAIN, enc(1), enc(2), enc(5), enc(17)] {
                                run(c, &site(s, &f), &e, LAX, mask::ALL)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    odd_places(c, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], mask::ALL);
    single(c, &[0, 1, 2, 3]);
    // The records themselves, among others.
    let id = |v: Vec<Node>| vec![B(IDENT, v), plain(vec![])[1].clone(), symtab(b"symtab"), strtab(b"strtab")];
    let p = R(1, text("producer"));
    let e = R(2, vec![5]);
    c.case(
        || "epochs".into(),
        |c| {
            for v in boundary_values() {
                for e in [R(2, vec![v]), R(2, vec![v, 9]), R(2, vec![v, v, v])] {
                    for i in 0..10 {
                        run(c, &id(vec![p.clone(), e.clone()]), &enc(i), LAX, mask::ALL)?;
                        run(c, &id(vec![e.clone(), p.clone()]), &enc(i), LAX, mask::ALL)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "missing and empty records".into(),
        |c| {
            let empty = [
                vec![],
                vec![p.clone()],
                vec![e.clone()],
                vec![p.clone(), R(2, vec![])],
                vec![R(1, vec![]), e.clone()],
                vec![R(1, vec![]), R(2, vec![])],
                vec![B(40, vec![p.clone(), e.clone()])],
                vec![p.clone(), B(40, vec![e.clone()])],
                vec![e.clone(), B(40, vec![p.clone()])],
                vec![B(IDENT, vec![p.clone(), e.clone()])],
            ];
            for v in empty {
                go(c, &id(v), mask::ALL)?;
            }
            for b in [STRTAB, SYMTAB] {
                for v in [vec![], vec![R(1, vec![])], vec![R(2, text("xy"))], vec![B(40, vec![R(1, text("xy"))])], vec![B(b, vec![R(1, text("xy"))])]] {
                    let mut d = plain(vec![]);
                    if b == STRTAB {
                        d[2] = B(b, v);
                    } else {
                        d.push(B(b, v));
                    }
                    go(c, &d, mask::ALL)?;
                }
            }
            Ok(())
        },
    );
    // Every sequence of records in each of the blocks.
    let noise = |x: u64| {
        vec![
            R(1, text("first")),
            R(2, vec![x]),
            R(3, text("third")),
            R(0, text("zeroth")),
            R((1 << 32) + 1, text("wide")),
            R(257, text("late")),
            R(1 << 63, vec![]),
            B(40, vec![R(1, text("nested")), R(2, vec![77])]),
            B(IDENT, vec![R(1, text("inner")), R(2, vec![78])]),
        ]
    };
    for block in [IDENT, STRTAB, SYMTAB] {
        for (i, s) in sequences(9, c.q(3, 4)).chunks(400).enumerate() {
            c.case(
                || format!("block {block}: sequences of records and blocks, part {i}"),
                |c| {
                    for s in s {
                        let v: Vec<Node> = s.iter().enumerate().map(|(i, k)| noise(i as u64 + 3)[*k].clone()).collect();
                        let d = match block {
                            IDENT => id(v),
                            STRTAB => vec![ident(), plain(vec![])[1].clone(), symtab(b"symtab"), B(STRTAB, v)],
                            _ => vec![ident(), plain(vec![])[1].clone(), B(SYMTAB, v), strtab(b"strtab")],
                        };
                        c.state(&d);
                        go(c, &d, mask::ALL)?;
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("block {block}: every unknown code"),
            |c| {
                for code in (0..600).chain(boundary_values()) {
                    let known = match block {
                        IDENT => vec![1, 2],
                        _ => vec![1],
                    };
                    if known.contains(&code) {
                        continue;
                    }
                    for at in 0..3 {
                        let mut v = match block {
                            IDENT => vec![p.clone(), e.clone()],
                            _ => vec![R(1, text("blob"))],
                        };
                        let at = at.min(v.len());
                        v.insert(at, R(code, text("unknown")));
                        let d = match block {
                            IDENT => id(v),
                            STRTAB => vec![ident(), plain(vec![])[1].clone(), symtab(b"symtab"), B(STRTAB, v)],
                            _ => vec![ident(), plain(vec![])[1].clone(), B(SYMTAB, v), strtab(b"strtab")],
                        };
                        go(c, &d, mask::ALL)?;
                    }
                }
                Ok(())
            },
        );
    }
    // Every character, alone and among others.
    let planes: Vec<(u32, u32)> = (0..0x110u32).map(|k| (k << 12, (k + 1) << 12)).collect();
    for s in 0..SITES.len() {
        for &(from, to) in &planes {
            let all = c.thorough() || s == from as usize / 0x1000 % SITES.len();
            if from > 0xffff && !all {
                continue;
            }
            c.case(
                || format!("{}: every character from U+{from:04X} to U+{:04X}", SITES[s], to - 1),
                |c| {
                    for k in (from..to).filter_map(char::from_u32) {
                        go(c, &site(s, &bytes(format!("{k}a").as_bytes())), mask::ALL)?;
                        if from <= 0xffff || c.thorough() {
                            go(c, &site(s, &bytes(format!("a{k}").as_bytes())), mask::ALL)?;
                            go(c, &site(s, &bytes(format!("a{k}{k}a").as_bytes())), mask::ALL)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for s in 0..SITES.len() {
        c.case(
            || format!("{}: long texts", SITES[s]),
            |c| {
                for n in [8191, 8192, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, (1 << 20) + 1] {
                    let t = long_text(n);
                    let mut bad = t.clone();
                    bad[n as usize - 2] = 0x80;
                    for (i, style) in STYLES.into_iter().enumerate() {
                        if n < 1 << 17 || i % 3 == 0 {
                            run(c, &site(s, &t), &Enc { width: 4, style }, LAX, mask::ALL)?;
                        }
                    }
                    go(c, &site(s, &bad), mask::ALL)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M03

fn lookups(c: &Ctx, t: &[u8]) -> Result<(), String> {
    let b = encode(&file(vec![R(1, vec![2]), no_types(), vst()], t), &PLAIN);
    let bc = Bitcode::try_from(&b[..]).map_err(|e| format!("table {}: {e:?}", hex(t)))?;
    let s = &bc.modules[0].strtab;
    if s.as_ref() != t {
        return Err(format!("table {} maps to {}", hex(t), hex(s.as_ref())));
    }
    let mut v: Vec<u64> = (0..t.len() as u64 + 3).collect();
    v.extend([1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]);
    v.extend((0..=t.len() as u64 + 1).map(|i| i.wrapping_neg()));
    v.sort_unstable();
    v.dedup();
    for &off in &v {
        for &size in &v {
            c.transitions(2);
            let want = off.checked_add(size).filter(|e| *e <= t.len() as u64 && size > 0).and_then(|e| std::str::from_utf8(&t[off as usize..e as usize]).ok());
            let r: StrtabRef = (off, size).into();
            let fallible = s.try_get(&r).ok();
            let optional = s.get(&r);
            if size == 0 && fallible.is_none() && optional.is_none() {
                continue;
            }
            if size == 0 || fallible != want || optional != want {
                return Err(format!("table {}, offset {off}, size {size}: expected {want:?}, got {fallible:?} and {optional:?}", hex(t)));
            }
            let r: StrtabRef = (off as usize, size as usize).into();
            if s.try_get(&r).ok() != want || s.get(&r) != want {
                return Err(format!("table {}, offset {off}, size {size}, by usize: {:?}", hex(t), s.get(&r)));
            }
        }
    }
    c.step();
    c.trace();
    Ok(())
}

/// References that reach up to, and past, the end of a table.
fn reach(c: &Ctx, n: usize) -> Result<(), String> {
    let t: Vec<u8> = (0..n).map(|i| b'!' + (i % 89) as u8).collect();
    let b = encode(&file(vec![R(1, vec![2]), no_types(), vst()], &t), &PLAIN);
    let bc = Bitcode::try_from(&b[..]).map_err(|e| format!("table of {n} bytes: {e:?}"))?;
    let s = &bc.modules[0].strtab;
    if s.as_ref() != &t[..] {
        return Err(format!("a table of {n} bytes maps to {}", s.as_ref().len()));
    }
    let near = |x: usize| x.saturating_sub(2)..=x + 2;
    for off in near(0).chain(near(n / 2)).chain(near(n)) {
        for size in near(1).chain(near(n / 2)).chain(near(n.saturating_sub(off))).chain(near(n)).filter(|s| *s > 0) {
            c.transitions(2);
            let want = off.checked_add(size).filter(|e| *e <= n).map(|e| std::str::from_utf8(&t[off..e]).unwrap());
            let (wide, narrow): (StrtabRef, StrtabRef) = ((off as u64, size as u64).into(), (off, size).into());
            for r in [wide, narrow, StrtabRef { offset: off, size }] {
                if s.try_get(&r).ok() != want || s.get(&r) != want {
                    return Err(format!("table of {n} bytes, offset {off}, size {size}: got {:?}", s.get(&r)));
                }
            }
        }
    }
    c.step();
    c.trace();
    Ok(())
}

/// A void function without parameters.
fn fn_types() -> Node {
    types(vec![R(2, vec![]), R(21, vec![0, 0]), R(7, vec![32])])
}

fn function(off: u64, size: u64) -> Node {
    R(8, vec![off, size, 1, 0, 0, 0, 0, 0, 0, 0])
}

fn alias(off: u64, size: u64) -> Node {
    R(14, vec![off, size, 2, 0, 7, 0])
}

fn comdat(off: u64, size: u64) -> Node {
    R(12, vec![off, size, 1])
}

pub fn m03(c: &mut Ctx) {
    const ALPHABET: [u8; 7] = [b'a', 0, 0xc3, 0xa9, 0xe2, 0x82, 0xac];
    for (i, s) in sequences(7, c.q(6, 7)).chunks(500).enumerate() {
        c.case(
            || format!("lookups in every small table, part {i}"),
            |c| {
                for s in s.iter().filter(|s| s.len() > 1) {
                    let t: Vec<u8> = s.iter().map(|k| ALPHABET[*k]).collect();
                    lookups(c, &t)?;
                    c.state(&t);
                }
                Ok(())
            },
        );
    }
    for n in [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] {
        c.case(
            || format!("lookups in tables of {n} bytes"),
            |c| {
                let mixed: String = "aé€😀z".chars().cycle().take(n).collect();
                lookups(c, &mixed.as_bytes()[..n])?;
                lookups(c, &vec![b'x'; n])?;
                lookups(c, &(0..n).map(|i| (i % 256) as u8).collect::<Vec<_>>())
            },
        );
    }
    for part in 0..16 {
        c.case(
            || format!("references of every size, part {part}"),
            |c| {
                let mut sizes: Vec<usize> = (2..=c.q(1100, 4100)).filter(|n| n % 16 == part).collect();
                if part == 0 {
                    sizes.extend([4095, 4096, 4097, 8191, 8192, 8193, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000]);
                }
                for n in sizes {
                    reach(c, n)?;
                    c.state(&("reach", n));
                }
                Ok(())
            },
        );
    }
    // Names.
    let tables: [&[u8]; 6] = [b"ab", b"main", b"a\0b\n", "né€".as_bytes(), &[b'a', 0xff, b'b'], "😀x".as_bytes()];
    for t in tables {
        for (what, f) in [("function", function as fn(u64, u64) -> Node), ("alias", alias), ("COMDAT", comdat)] {
            c.case(
                || format!("{what} names from {}", hex(t)),
                |c| {
                    let n = t.len() as u64;
                    let mut v: Vec<u64> = (0..n + 3).collect();
                    v.extend(boundary_values().into_iter().filter(|v| *v > n + 2));
                    v.extend((1..n + 2).map(|i| i.wrapping_neg()));
                    for &off in &v {
                        for &size in &v {
                            go(c, &typed(fn_types(), vec![f(off, size)], t), mask::ALL)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("several names from {}", hex(t)),
            |c| {
                let n = t.len() as u64;
                for a in 0..=n {
                    for b in 0..=n - a {
                        for d in 0..=n {
                            let v = vec![function(a, b), alias(a, b), comdat(a, b), function(d, n - d), comdat(d, n - d), alias(d, n - d)];
                            go(c, &typed(fn_types(), v, t), mask::ALL)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Each module's own table.
    for order in ["IMTIMT", "IMIMT", "IMTIMIMT", "IMTTIMT", "TIMTTIMT", "IMIMTIMT", "IMYTIMTY"] {
        c.case(
            || format!("names from each module's own table in {order}"),
            |c| {
                const NAMES: [&str; 8] = ["alpha", "beta", "gamma", "delta", "épsilon", "zeta", "eta", "theta"];
                for off in 0..6 {
                    for size in 0..6 {
                        let mut d = tops(order);
                        for (i, n) in d.iter_mut().enumerate() {
                            match n {
                                B(MODULE, m) => {
                                    m.retain(|n| !matches!(n, B(TYPES, _)));
                                    m.insert(1, fn_types());
                                    m.extend([function(off, size), alias(off, size)]);
                                    if size > 0 {
                                        m.push(comdat(off, size));
                                    }
                                }
                                B(STRTAB, _) => *n = strtab(NAMES[i].as_bytes()),
                                _ => {}
                            }
                        }
                        go(c, &d, mask::ALL)?;
                    }
                }
                Ok(())
            },
        );
    }
    // Large tables.
    for n in [1000u64, 4096, 65_535, 65_536, 65_537, 70_001, (1 << 20) + 5] {
        c.case(
            || format!("names from tables of {n} bytes"),
            |c| {
                let t: Vec<u8> = long_text(n).into_iter().map(|b| b as u8).collect();
                let mut v: Vec<u64> = [1, 2, 255, 256, 257, 65_535, 65_536, 65_537, 1 << 20, n, n + 1].into();
                v.extend([n - 1, n - 2, n / 2, n - n / 2]);
                let mut all = vec![];
                for &size in &v {
                    for off in v.iter().map(|x| x - 1).chain(v.iter().copied()) {
                        if off + size <= n && (size < 1 << 17 || off < 2) {
                            all.extend([function(off, size), alias(off, size), comdat(off, size)]);
                        }
                    }
                }
                go(c, &typed(fn_types(), all.clone(), &t), mask::ALL)?;
                if n < 1 << 20 {
                    for (off, size) in [(n, 1), (n - 1, 2), (1, n), (0, n + 1), (n + 1, 0), (n - 255, 256), ((1 << 16) + n, 1), ((1 << 32) + 1, 1), (1, (1 << 32) + 1)] {
                        for f in [function, alias, comdat] {
                            let mut m = all.clone();
                            m.push(f(off, size));
                            go(c, &typed(fn_types(), m, &t), mask::ALL)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for n in many(c) {
        c.case(
            || format!("{n} names"),
            |c| {
                let t: Vec<u8> = long_text(n + 9).into_iter().map(|b| b as u8).collect();
                let m = (0..n).map(|i| [function, alias, comdat][i as usize % 3](i, 1 + i % 8)).collect();
                go(c, &typed(fn_types(), m, &t), mask::ALL)
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M04

/// Check a type table (with the types that aren't specified being tolerated).
fn table(c: &Ctx, t: Vec<Node>) -> Result<(), String> {
    go(c, &typed(types(t), vec![], b"xx"), mask::TYPES)
}

const PRIM_CODES: [u64; 13] = [10, 23, 3, 4, 16, 13, 14, 15, 2, 5, 17, 24, 22];

/// Every kind of type, as records that define it in entry `at` with what it needs behind that.
fn components() -> Vec<(&'static str, Box<dyn Fn(u64) -> Vec<Node>>)> {
    let mut v: Vec<(&'static str, Box<dyn Fn(u64) -> Vec<Node>>)> = vec![];
    const NAMES: [&str; 13] = ["half", "bfloat", "float", "double", "metadata", "x86_fp80", "fp128", "ppc_fp128", "void", "label", "x86_mmx", "x86_amx", "token"];
    for (n, code) in NAMES.iter().zip(PRIM_CODES) {
        v.push((n, Box::new(move |_| vec![R(code, vec![])])));
    }
    v.push(("i1", Box::new(|_| vec![R(7, vec![1])])));
    v.push(("i64", Box::new(|_| vec![R(7, vec![64])])));
    v.push(("function", Box::new(|at| vec![R(21, vec![0, at + 1, at + 1]), R(7, vec![8])])));
    v.push(("i8*", Box::new(|at| vec![R(8, vec![at + 1, 0]), R(7, vec![8])])));
    v.push(("ptr", Box::new(|_| vec![R(25, vec![0])])));
    v.push(("ptr addrspace(3)", Box::new(|_| vec![R(25, vec![3])])));
    v.push(("opaque", Box::new(|_| vec![R(19, text("opaque")), R(6, vec![0])])));
    v.push(("struct", Box::new(|at| vec![R(18, vec![0, at + 1, at + 1]), R(7, vec![8])])));
    v.push(("empty struct", Box::new(|_| vec![R(18, vec![0])])));
    v.push(("named struct", Box::new(|at| vec![R(19, text("named")), R(20, vec![1, at + 1]), R(7, vec![8])])));
    v.push(("array", Box::new(|at| vec![R(11, vec![4, at + 1]), R(7, vec![8])])));
    v.push(("vector", Box::new(|at| vec![R(12, vec![4, at + 1]), R(7, vec![8])])));
    v.push(("scalable vector", Box::new(|at| vec![R(12, vec![4, at + 1, 1]), R(7, vec![8])])));
    v
}

/// Every way to use a type in another one.
fn uses() -> Vec<(&'static str, Box<dyn Fn(u64) -> Vec<Node>>)> {
    let mut v: Vec<(&'static str, Box<dyn Fn(u64) -> Vec<Node>>)> = vec![];
    v.push(("pointer", Box::new(|t| vec![R(8, vec![t, 0])])));
    v.push(("pointer in address space 5", Box::new(|t| vec![R(8, vec![t, 5])])));
    v.push(("array", Box::new(|t| vec![R(11, vec![3, t])])));
    v.push(("array of none", Box::new(|t| vec![R(11, vec![0, t])])));
    v.push(("vector", Box::new(|t| vec![R(12, vec![3, t])])));
    v.push(("vector with a zero flag", Box::new(|t| vec![R(12, vec![3, t, 0])])));
    v.push(("scalable vector", Box::new(|t| vec![R(12, vec![3, t, 1])])));
    v.push(("struct", Box::new(|t| vec![R(18, vec![0, t])])));
    v.push(("packed struct", Box::new(|t| vec![R(18, vec![1, t, t])])));
    v.push(("named struct", Box::new(|t| vec![R(19, text("user")), R(20, vec![0, t])])));
    v.push(("function that returns it", Box::new(|t| vec![R(21, vec![0, t])])));
    v.push(("variadic function that returns it", Box::new(|t| vec![R(21, vec![1, t])])));
    v.push(("function that takes it", Box::new(|t| vec![R(21, vec![0, 0, t])])));
    v.push(("variadic function that takes it twice", Box::new(|t| vec![R(21, vec![1, 0, t, t])])));
    v
}

/// Names of types.
const NAMES: [&str; 24] = [
    "a",
    "A",
    "a.0",
    "a.1",
    "a.01",
    ".0",
    "0",
    "a.",
    ".",
    "struct.a",
    "class.a",
    "union.a",
    "struct.a.0",
    "class.struct.a",
    "a b",
    " a",
    "a ",
    "\"a\"",
    "a\\22",
    "%a",
    "a\0",
    "\0a",
    "\u{e9}.0",
    "a::b<c>",
];

fn entries(v: &[Node]) -> u64 {
    v.iter().filter(|n| !matches!(n, R(19, _))).count() as u64
}

/// The records of types: a void, then the parts, each of which may refer to the next one.
fn stacked(parts: &[&dyn Fn(u64) -> Vec<Node>], bottom_first: bool) -> Vec<Node> {
    // Entry 0 is a void for functions to return.
    let mut v = vec![R(2, vec![])];
    if bottom_first {
        let mut last = 0;
        for (i, p) in parts.iter().rev().enumerate() {
            let at = entries(&v);
            v.extend(p(if i == 0 { at } else { last }));
            last = at;
        }
    } else {
        for (i, p) in parts.iter().enumerate() {
            let at = entries(&v);
            v.extend(p(if i + 1 == parts.len() { at } else { at + 1 }));
        }
    }
    v
}

/// Records of every kind that refer to the first entries.
fn type_alphabet() -> Vec<Node> {
    let mut v = vec![
        R(2, vec![]),
        R(3, vec![]),
        R(5, vec![]),
        R(16, vec![]),
        R(7, vec![32]),
        R(25, vec![1]),
        R(6, vec![0]),
        R(19, text("name")),
        R(19, text("other")),
        R(18, vec![0]),
        R(20, vec![0]),
        R(21, vec![0, 0]),
    ];
    for t in 0..3 {
        v.push(R(8, vec![t, 0]));
        v.push(R(11, vec![2, t]));
        v.push(R(12, vec![2, t]));
        v.push(R(12, vec![2, t, 1]));
        v.push(R(18, vec![1, t]));
        v.push(R(20, vec![1, t]));
        v.push(R(21, vec![1, t, t]));
    }
    v.push(R(18, vec![0, 0, 1]));
    v.push(R(20, vec![0, 1, 0]));
    v.push(R(21, vec![0, 0, 1]));
    v.push(R(21, vec![0, 1, 2, 0]));
    v
}

pub fn m04(c: &mut Ctx) {
    let comps = components();
    let users = uses();
    for (name, comp) in &comps {
        c.case(
            || format!("{name}, used in every way"),
            |c| {
                for (_, u) in &users {
                    for order in [false, true] {
                        table(c, stacked(&[u.as_ref(), comp.as_ref()], order))?;
                        for (_, u2) in &users {
                            table(c, stacked(&[u2.as_ref(), u.as_ref(), comp.as_ref()], order))?;
                            if c.thorough() {
                                for (_, u3) in &users {
                                    table(c, stacked(&[u3.as_ref(), u2.as_ref(), u.as_ref(), comp.as_ref()], order))?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Functions and structs with several components.
    for (name, a) in &comps {
        c.case(
            || format!("{name} with every other component"),
            |c| {
                for (_, b) in &comps {
                    let mut v = a(0);
                    let second = entries(&v);
                    v.extend(b(second));
                    let n = entries(&v);
                    for flag in 0..2 {
                        for f in [R(18, vec![flag, 0, second]), R(18, vec![flag, second, 0, second]), R(21, vec![flag, 0, second]), R(21, vec![flag, second, 0, second])] {
                            let mut v = v.clone();
                            v.push(f);
                            v.push(R(21, vec![0, n]));
                            table(c, v.clone())?;
                            v.pop();
                            table(c, v)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Functions and structs with several components, in every sequence.
    for code in [18u64, 20, 21] {
        for first in 0..5u64 {
            c.case(
                || format!("every sequence of components that starts with {first}, in {code}"),
                |c| {
                    // Something of every sort: an integer, a float, a pointer, an array and a struct.
                    let base = vec![R(7, vec![8]), R(3, vec![]), R(8, vec![0, 3]), R(11, vec![2, 2]), R(18, vec![1, 0, 1])];
                    for s in sequences(5, c.q(5, 6)) {
                        let s: Vec<u64> = std::iter::once(first).chain(s.into_iter().map(|k| k as u64)).collect();
                        c.state(&(code, &s));
                        for flag in 0..2 {
                            let mut v = base.clone();
                            if code == 20 {
                                v.push(R(19, text("name")));
                            }
                            v.push(R(code, [&[flag][..], &s].concat()));
                            table(c, v)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("many different components, in {code}"),
            |c| {
                for n in 1..c.q(70, 200u64) {
                    let mut base: Vec<Node> = (0..n).map(|i| R(7, vec![i + 1])).collect();
                    base.push(R(19, text("name")));
                    let up: Vec<u64> = (0..n).collect();
                    let down: Vec<u64> = up.iter().rev().copied().collect();
                    let mut all = vec![up.clone(), down];
                    for by in 1..n as usize {
                        let mut r = up.clone();
                        r.rotate_left(by);
                        all.push(r);
                        let mut w = up.clone();
                        w.swap(by - 1, by);
                        all.push(w);
                        // Without one, and with one twice.
                        all.push([&up[..by], &up[by + 1..]].concat());
                        all.push([&up[..by], &up[by - 1..]].concat());
                    }
                    for s in all {
                        for flag in 0..2 {
                            let mut v = base.clone();
                            v.push(R(code, [&[flag][..], &s].concat()));
                            table(c, v)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Sequences of records.
    let alphabet = type_alphabet();
    for (i, first) in alphabet.iter().enumerate() {
        let n = c.q(3, 4);
        c.case(
            || format!("every table of up to {} records that starts with {}", n + 1, show(std::slice::from_ref(first))),
            |c| {
                for s in sequences(alphabet.len(), n) {
                    let v: Vec<Node> = std::iter::once(i).chain(s).map(|k| alphabet[k].clone()).collect();
                    c.state(&v);
                    table(c, v)?;
                }
                Ok(())
            },
        );
    }
    // Names.
    let names = [R(19, text("one")), R(19, text("twö")), R(6, vec![0]), R(20, vec![0]), R(20, vec![1, 0]), R(18, vec![0]), R(7, vec![8]), R(21, vec![0, 0]), R(11, vec![1, 0])];
    for a in 0..names.len() {
        for b in 0..names.len() {
            let n = c.q(4, 5);
            c.case(
                || format!("names: every table of up to {} records that starts with {}", n + 2, show(&[names[a].clone(), names[b].clone()])),
                |c| {
                    for s in sequences(names.len(), n) {
                        let v: Vec<Node> = [a, b].into_iter().chain(s).map(|k| names[k].clone()).collect();
                        table(c, v)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // A name remains until something takes it, whatever is in between.
    let mut between: Vec<Node> = (1..=c.q(130, 1000)).map(|w| R(7, vec![w])).collect();
    between.extend(PRIM_CODES.iter().map(|p| R(*p, vec![])));
    between.extend(type_alphabet());
    for n in [0, 1, 2, 3, 4, 8, 16, 64, 1000] {
        between.extend([R(11, vec![n, 0]), R(12, vec![n, 0]), R(12, vec![n, 0, 1]), R(8, vec![0, n]), R(25, vec![n]), R(1, vec![n])]);
    }
    for code in 26..60 {
        between.push(R(code, vec![0]));
    }
    for (i, b) in between.iter().enumerate() {
        c.case(
            || format!("a name, {}, and what takes names", show(std::slice::from_ref(b))),
            |c| {
                for p in [R(7, vec![1]), R(7, vec![32]), R(2, vec![]), R(5, vec![])] {
                    for taker in [R(6, vec![0]), R(20, vec![0]), R(20, vec![1, 0])] {
                        for b2 in between.iter().skip(if c.thorough() { 0 } else { i % 7 }).step_by(c.q(7, 1)) {
                            let v = vec![p.clone(), R(19, text("name")), b.clone(), b2.clone(), taker.clone(), R(19, text("other")), taker.clone()];
                            table(c, v)?;
                        }
                        table(c, vec![p.clone(), R(19, text("name")), b.clone(), taker.clone(), b.clone(), taker.clone()])?;
                    }
                }
                Ok(())
            },
        );
    }
    // Counts.
    c.case(
        || "entry counts".into(),
        |c| {
            for n in 0..40u64 {
                for count in (0..80).chain(boundary_values()) {
                    for at in [0, n as usize / 2, n as usize] {
                        let mut v: Vec<Node> = (0..n).map(|i| R(7, vec![i + 1])).collect();
                        v.insert(at, R(1, vec![count]));
                        if n > 3 {
                            v.insert(2, R(19, text("name")));
                            v.insert(3, R(20, vec![0]));
                        }
                        go(c, &typed(B(TYPES, v), vec![], b"xx"), mask::TYPES)?;
                    }
                }
            }
            for v in
                [vec![], vec![R(1, vec![])], vec![R(2, vec![])], vec![R(1, vec![]), R(2, vec![])], vec![R(1, vec![1, 5]), R(2, vec![])], vec![R(1, vec![1]), R(19, text("nn"))]]
            {
                go(c, &typed(B(TYPES, v), vec![], b"xx"), mask::TYPES)?;
            }
            Ok(())
        },
    );
    // Records that are cut short or have more fields, and unknown ones.
    c.case(
        || "record lengths".into(),
        |c| {
            for code in 1..27 {
                for n in 0..12usize {
                    for fill in 0..4u64 {
                        for flag in 0..3u64 {
                            let mut f = vec![fill; n];
                            if n > 0 {
                                f[0] = flag;
                            }
                            let rest = vec![R(7, vec![8]), R(2, vec![]), R(3, vec![])];
                            for named in [false, true] {
                                let mut v = rest.clone();
                                if named {
                                    v.push(R(19, text("name")));
                                }
                                v.push(R(code, f.clone()));
                                table(c, v)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "record codes".into(),
        |c| {
            for code in (0..c.q(5000, 70_000)).chain(boundary_values()) {
                for f in [vec![], vec![1], vec![0, 0], vec![0, 0, 0]] {
                    table(c, vec![R(7, vec![8]), R(code, f.clone())])?;
                    table(c, vec![R(code, f), R(7, vec![8])])?;
                }
            }
            Ok(())
        },
    );
    // Numeric fields.
    let mut values = boundary_values();
    values.extend(0..300);
    values.extend([(1 << 24) - 2, (1 << 23) - 2, (1 << 32) + 8, (1 << 33) + 32, (1 << 24) + (1 << 32)]);
    for style in [Style::Plain, Style::Array6, Style::Scalars] {
        c.case(
            || format!("numbers, as {style:?}"),
            |c| {
                for &v in &values {
                    let e = Enc { width: 4, style };
                    for r in [
                        R(7, vec![v]),
                        R(7, vec![v, 3]),
                        R(8, vec![0, v]),
                        R(8, vec![v, 0]),
                        R(25, vec![v]),
                        R(11, vec![v, 0]),
                        R(11, vec![3, v]),
                        R(12, vec![v, 0]),
                        R(12, vec![v, 0, 1]),
                        R(12, vec![3, v]),
                        R(12, vec![3, 0, v]),
                        R(18, vec![v]),
                        R(18, vec![v, 0]),
                        R(18, vec![0, v]),
                        R(18, vec![1, 0, v]),
                        R(21, vec![v, 0]),
                        R(21, vec![v, 0, 0]),
                        R(21, vec![0, v]),
                        R(21, vec![0, 0, v]),
                        R(21, vec![0, 0, 0, v]),
                        R(20, vec![v]),
                        R(20, vec![0, v]),
                        R(6, vec![v]),
                        R(1, vec![v]),
                    ] {
                        for named in [false, true] {
                            let mut t = vec![R(7, vec![9])];
                            if named {
                                t.push(R(19, text("name")));
                            }
                            t.push(r.clone());
                            run(c, &typed(types(t), vec![], b"xx"), &e, LAX, mask::TYPES)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Chains and cycles.
    c.case(
        || "chains".into(),
        |c| {
            for n in 1..60u64 {
                for (_, u) in &users {
                    // Types that contain another one twice double in size.
                    if n > 12 && u(9).iter().any(|n| matches!(n, R(_, f) if f.iter().filter(|x| **x == 9).count() > 1)) {
                        continue;
                    }
                    // Towards the start, and towards the end.
                    let mut back = vec![R(7, vec![8])];
                    for i in 0..n {
                        back.extend(u(i));
                    }
                    table(c, back)?;
                    let mut forth: Vec<Node> = (0..n).flat_map(|i| u(i + 1)).collect();
                    forth.push(R(7, vec![8]));
                    table(c, forth)?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "cycles".into(),
        |c| {
            for n in 1..12u64 {
                for (_, u) in &users {
                    for (_, u2) in &users {
                        for to in 0..=n {
                            // A chain that leads back to one of its types (or to the type behind it).
                            let mut v: Vec<Node> = (0..n - 1).flat_map(|i| u(i + 1)).collect();
                            v.extend(u2(to));
                            v.push(R(7, vec![8]));
                            table(c, v)?;
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // Every order of the same types.
    let graph: Vec<(Option<&str>, u64, Vec<u64>, Vec<usize>)> = vec![
        (None, 7, vec![8], vec![]),
        (None, 2, vec![], vec![]),
        (Some("node"), 20, vec![0, 100, 103, 100], vec![]),
        (None, 8, vec![104, 2], vec![]),
        (None, 21, vec![1, 101, 105, 100], vec![]),
        (None, 11, vec![7, 100], vec![]),
        (Some("opaque"), 6, vec![0], vec![]),
    ];
    let n = c.q(6, 7);
    for (i, ps) in permutations(n).chunks(90).enumerate() {
        c.case(
            || format!("every order of {n} types that refer to each other, part {i}"),
            |c| {
                for p in ps {
                    // Type k is entry p[k].
                    let mut v = vec![vec![]; n];
                    for (k, (name, code, f, _)) in graph.iter().take(n).enumerate() {
                        if let Some(name) = name {
                            v[p[k]].push(R(19, text(name)));
                        }
                        let f = f.iter().map(|x| if *x >= 100 { p[*x as usize - 100] as u64 } else { *x }).collect();
                        v[p[k]].push(R(*code, f));
                    }
                    for e in [PLAIN, enc(1), enc(5)] {
                        run(c, &typed(types(v.concat()), vec![], b"xx"), &e, LAX, mask::TYPES)?;
                    }
                }
                Ok(())
            },
        );
    }
    single(c, &[8, 9]);
    // Every component (and names that a mapper might treat in its own way) below chains of every length.
    let longest = c.q(24, 80u64);
    for (_, wrap) in [0, 2, 7, 9, 10].into_iter().map(|k| (k, &users[k].1)) {
        c.case(
            || format!("every component below chains of up to {longest} of {}", show(&wrap(1))),
            |c| {
                for n in 1..longest {
                    for (_, comp) in &comps {
                        let chain: Vec<Node> = (0..n).flat_map(|i| wrap(i + 1)).chain(comp(n)).collect();
                        table(c, chain)?;
                        let mut chain = comp(0);
                        let from = entries(&chain);
                        chain.extend(wrap(0));
                        chain.extend((from..from + n).flat_map(|i| wrap(i)));
                        table(c, chain)?;
                    }
                    for (_, u) in &users {
                        let chain: Vec<Node> = (0..n).flat_map(|i| wrap(i + 1)).chain(u(n + 1)).chain([R(7, vec![8])]).collect();
                        table(c, chain)?;
                    }
                    for name in NAMES {
                        let named = |v: Vec<Node>| [vec![R(19, text(name))], v].concat();
                        for end in [named(vec![R(6, vec![0])]), named(vec![R(20, vec![n % 2, n + 1]), R(7, vec![8])])] {
                            let chain: Vec<Node> = (0..n).flat_map(|i| wrap(i + 1)).chain(end.clone()).collect();
                            table(c, chain)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "every two names".into(),
        |c| {
            for a in NAMES {
                for b in NAMES {
                    let (a, b) = (R(19, text(a)), R(19, text(b)));
                    let (opaque, st) = (R(6, vec![0]), R(20, vec![0, 0]));
                    for (x, y) in [(&opaque, &opaque), (&opaque, &st), (&st, &st)] {
                        table(c, vec![R(7, vec![8]), a.clone(), x.clone(), b.clone(), y.clone()])?;
                        // One after the other, and one inside the other.
                        table(c, vec![R(7, vec![8]), a.clone(), b.clone(), y.clone(), x.clone()])?;
                        table(c, vec![R(7, vec![8]), a.clone(), x.clone(), b.clone(), R(20, vec![0, 1, 0]), R(21, vec![0, 2, 1])])?;
                    }
                }
            }
            Ok(())
        },
    );
    // Many types, fields and parameters, and long names.
    for n in many(c) {
        c.case(
            || format!("{n} types"),
            |c| {
                let near = indexes(n);
                for first in [false, true] {
                    let mut ints: Vec<Node> = (0..n).map(|i| R(7, vec![i + 1])).collect();
                    let users: Vec<Node> = near
                        .iter()
                        .flat_map(|k| {
                            let k = if first { k + 1000 } else { *k };
                            [R(8, vec![k, 0]), R(11, vec![3, k]), R(12, vec![3, k]), R(21, vec![0, k, k]), R(18, vec![0, k]), R(21, vec![1, k])]
                        })
                        .collect();
                    if first {
                        // In front of what they use.
                        let mut v = users;
                        v.extend((v.len()..1000).map(|_| R(2, vec![])).collect::<Vec<_>>());
                        v.extend(ints);
                        table(c, v)?;
                    } else {
                        ints.extend(users);
                        table(c, ints.clone())?;
                        // Off by one.
                        ints.push(R(8, vec![entries(&ints) + 1, 0]));
                        table(c, ints.clone())?;
                        for d in [1, 256, 1 << 16] {
                            ints.pop();
                            ints.insert(0, R(1, vec![entries(&ints) + d]));
                            go(c, &typed(B(TYPES, ints.clone()), vec![], b"xx"), mask::TYPES)?;
                            ints.remove(0);
                            ints.push(R(2, vec![]));
                        }
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("{n} fields and parameters"),
            |c| {
                for f in [R(21, vec![0, 1]), R(21, vec![1, 1]), R(18, vec![0]), R(18, vec![1]), R(20, vec![0])] {
                    let R(code, start) = &f else { unreachable!() };
                    let base = vec![R(7, vec![8]), R(2, vec![]), R(3, vec![]), R(19, text("name"))];
                    let with = |fields: Vec<u64>| {
                        let mut v = base.clone();
                        v.push(R(*code, [&start[..], &fields].concat()));
                        v
                    };
                    let fields: Vec<u64> = (0..n).map(|i| (i + i / 255) % 2 * 2).collect();
                    table(c, with(fields.clone()))?;
                    // What doesn't belong here.
                    for at in [0, 1, 30, 100, 255, 256, 65_535, n as usize - 1] {
                        for bad in [1, 4, 9] {
                            if at < n as usize {
                                let mut fields = fields.clone();
                                fields[at] = bad;
                                table(c, with(fields))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("names of {n} characters, and {n} names"),
            |c| {
                for code in [6, 20] {
                    table(c, vec![R(7, vec![8]), R(19, long_text(n)), R(code, vec![0, 0]), R(19, long_text(n - 1)), R(code, vec![0])])?;
                    let v = (0..n).flat_map(|i| [R(19, text(&format!("name{i}"))), R(code, vec![i % 2])]).collect();
                    table(c, v)?;
                    let v = (0..n).map(|i| R(19, text(&format!("name{i}")))).chain([R(code, vec![0])]).collect();
                    table(c, v)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M05

/// A module with these groups and lists, and a function for each list.
fn attributed(groups: Vec<Node>, lists: Vec<Node>) -> Doc {
    let mut extra = vec![B(GROUPS, groups)];
    let n = lists.len() as u64;
    if n > 0 {
        extra.push(B(PARAMATTR, lists));
    }
    for i in 0..=n {
        extra.push(R(8, vec![0, 2, 1, 0, 0, 0, i, 0, 0, 0]));
    }
    typed(fn_types(), extra, b"xx")
}

const M05: u32 = mask::ATTRIBUTES | mask::FUNCTIONS;

fn one_group(f: Vec<u64>) -> Doc {
    let mut g = vec![1, 0];
    g.extend(f);
    attributed(vec![R(3, g)], vec![R(2, vec![1])])
}

/// Attributes of every form.
fn attribute_alphabet() -> Vec<Vec<u64>> {
    let s = |kind: u64, parts: &[&str]| {
        let mut v = vec![kind];
        for p in parts {
            v.extend(text(p));
            v.push(0);
        }
        v
    };
    vec![
        vec![0, 18],
        vec![0, 2],
        vec![1, 1, 16],
        vec![1, 25, 1],
        vec![1, 41, 1 << 40],
        vec![1, 51, (3 << 32) + 0xffff_ffff],
        vec![1, 51, (1 << 32) + 2],
        vec![1, 74, (1 << 32) + 16],
        vec![1, 33, 2],
        s(3, &["key"]),
        s(3, &["kéy"]),
        s(4, &["key", "value"]),
        s(4, &["a", "b"]),
        s(3, &["x"]),
    ]
}

pub fn m05(c: &mut Ctx) {
    // IDs and values.
    for from in (0..120).step_by(8) {
        c.case(
            || format!("attribute IDs {from} to {}, with every kind and value", from + 7),
            |c| {
                let mut values = boundary_values();
                values.extend(0..300);
                values.extend((0..64).map(|k| 3 << k >> 1));
                values.extend((0..32).map(|k| (1 << 32 << k) + 0xffff_ffff));
                for id in from..from + 8 {
                    for kind in 0..8 {
                        go(c, &one_group(vec![kind, id]), M05)?;
                        go(c, &one_group(vec![kind, id, 0]), M05)?;
                        go(c, &one_group(vec![kind, id, 0, 0, 18]), M05)?;
                    }
                    for &v in &values {
                        go(c, &one_group(vec![1, id, v]), M05)?;
                        go(c, &one_group(vec![1, id, v, 0, 18]), M05)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "huge attribute IDs and kinds".into(),
        |c| {
            for v in boundary_values().into_iter().chain(ATTRIBUTES.iter().map(|(i, _)| i + (1 << 32))).chain(0..300) {
                go(c, &one_group(vec![0, v]), M05)?;
                go(c, &one_group(vec![1, v, 8]), M05)?;
                go(c, &one_group(vec![v, 18]), M05)?;
                go(c, &one_group(vec![v, 41, 8]), M05)?;
                go(c, &one_group(vec![v, 97, 0]), M05)?;
                go(c, &one_group(vec![v, 97, 0, 98, 0]), M05)?;
                go(c, &one_group(vec![0, 18, v, 97, 0]), M05)?;
            }
            Ok(())
        },
    );
    // Sequences of attributes, complete and cut short.
    let alphabet = attribute_alphabet();
    for (i, first) in alphabet.iter().enumerate() {
        for (j, second) in alphabet.iter().enumerate() {
            let n = c.q(1, 2);
            c.case(
                || format!("every sequence of up to {} attributes that starts with {i} and {j}", n + 2),
                |c| {
                    for s in sequences(alphabet.len(), n) {
                        let mut f = [first.clone(), second.clone()].concat();
                        for k in &s {
                            f.extend(&alphabet[*k]);
                        }
                        c.state(&f);
                        for cut in 0..=f.len() {
                            go(c, &one_group(f[..cut].to_vec()), M05)?;
                        }
                        for at in 0..f.len() {
                            let mut g = f.clone();
                            g.remove(at);
                            go(c, &one_group(g.clone()), M05)?;
                            g.insert(at, 0);
                            go(c, &one_group(g), M05)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Text.
    for a in 0..16 {
        c.case(
            || format!("attribute text with bytes {a:x}0 to {a:x}f"),
            |c| {
                for a in a * 16..a * 16 + 16 {
                    for b in 1..=255 {
                        go(c, &one_group(vec![3, a, b, 0]), M05)?;
                        if b % 16 == a % 16 {
                            go(c, &one_group(vec![4, a, b, 0, 118, 0]), M05)?;
                            go(c, &one_group(vec![4, 107, 0, a, b, 0]), M05)?;
                            go(c, &one_group(vec![4, 107, 0, a, b, 0, 0, 18]), M05)?;
                            go(c, &one_group(vec![4, 107, 0, a, b]), M05)?;
                        }
                    }
                    go(c, &one_group(vec![3, a, 0]), M05)?;
                    go(c, &one_group(vec![4, a, 0, 98, 0]), M05)?;
                    go(c, &one_group(vec![4, 98, 0, a, 0]), M05)?;
                }
                Ok(())
            },
        );
    }
    c.case(
        || "attribute text at the boundaries of UTF-8".into(),
        |c| {
            for a in UTF8.iter().filter(|b| **b > 0) {
                for b in UTF8.iter().filter(|b| **b > 0) {
                    for d in UTF8.iter().filter(|b| **b > 0) {
                        let t = [*a as u64, *b as u64, *d as u64, 0];
                        go(c, &one_group([&[3][..], &t].concat()), M05)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "attribute text of every length, and characters over 255".into(),
        |c| {
            for n in (1..c.q(300, 700)).chain([1000, 4095, 4096, 4097]) {
                let t: Vec<u64> = (0..n).map(|i| 1 + (i * 7) % 126).collect();
                for tail in [&[0][..], &[], &[0, 0], &[0, 0, 18], &[0, 3, 97, 0], &[0, 1, 1, 16, 4, 98, 0, 99, 0, 0, 18]] {
                    go(c, &one_group([&[3][..], &t, tail].concat()), M05)?;
                    go(c, &one_group([&[4][..], &t, &[0, 118], tail].concat()), M05)?;
                    go(c, &one_group([&[4, 107, 0][..], &t, tail].concat()), M05)?;
                }
            }
            for v in boundary_values().into_iter().filter(|v| *v > 255).chain((8..64).map(|k| (1 << k) + 97)) {
                for at in 0..3 {
                    let mut t = [97, 98, 99];
                    t[at] = v;
                    go(c, &one_group([&[3][..], &t, &[0]].concat()), M05)?;
                    go(c, &one_group([&[4][..], &t, &[0, 118, 0]].concat()), M05)?;
                    go(c, &one_group([&[4, 107, 0][..], &t, &[0]].concat()), M05)?;
                }
            }
            Ok(())
        },
    );
    for first in 0..8 {
        c.case(
            || format!("attribute text with every character at every place, part {first}"),
            |c| {
                for n in 1..c.q(13, 40usize) {
                    for b in (1..128u64).filter(|b| b % 8 == first) {
                        let other: Vec<u64> = (0..n as u64).map(|i| 97 + i % 26).collect();
                        for at in 0..n {
                            let mut t = other.clone();
                            t[at] = b;
                            go(c, &one_group([&[3][..], &t, &[0]].concat()), M05)?;
                            go(c, &one_group([&[4][..], &t, &[0], &other, &[0]].concat()), M05)?;
                            go(c, &one_group([&[4][..], &other, &[0], &t, &[0]].concat()), M05)?;
                        }
                        let mut t = other;
                        t[0] = b;
                        t[n - 1] = b;
                        for w in [&t, &vec![b; n]] {
                            go(c, &one_group([&[3][..], w, &[0]].concat()), M05)?;
                            go(c, &one_group([&[4][..], w, &[0], w, &[0]].concat()), M05)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for plane in 0..c.q(16u32, 16 * 17) {
        c.case(
            || format!("attribute text with the characters from U+{:X} on", plane << 12),
            |c| {
                for ch in (plane << 12..(plane + 1) << 12).filter_map(char::from_u32).filter(|ch| *ch > '\0') {
                    let t = text(&format!("{ch}b{ch}"));
                    go(c, &one_group([&[4][..], &t, &[0], &t, &[0, 3], &t, &[0]].concat()), M05)?;
                }
                Ok(())
            },
        );
    }
    // Group IDs and targets.
    c.case(
        || "group IDs and parameters".into(),
        |c| {
            let mut v = boundary_values();
            v.extend(0..300);
            v.push((1 << 32) - 2);
            for &x in &v {
                for kind in [vec![0, 18], vec![1, 41, 8]] {
                    let g = |id: u64, p: u64| R(3, [&[id, p][..], &kind].concat());
                    go(c, &attributed(vec![g(x, 0)], vec![R(2, vec![x])]), M05)?;
                    go(c, &attributed(vec![g(x, 0)], vec![R(2, vec![1])]), M05)?;
                    go(c, &attributed(vec![g(1, x)], vec![R(2, vec![1])]), M05)?;
                    go(c, &attributed(vec![g(1, 0)], vec![R(2, vec![x])]), M05)?;
                    go(c, &attributed(vec![g(x, 1), g(7, 0xffff_ffff)], vec![R(2, vec![7, x]), R(2, vec![x, 7, x])]), M05)?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "record codes and lengths".into(),
        |c| {
            for code in (0..c.q(5000, 70_000)).chain(boundary_values()) {
                for n in [0, 1, 2, 3, 4, 5] {
                    let f = [1, 0, 0, 18, 0, 2][..n].to_vec();
                    go(c, &attributed(vec![R(code, f.clone())], vec![]), M05)?;
                    go(c, &attributed(vec![R(3, vec![1, 0, 0, 18])], vec![R(code, vec![1; n])]), M05)?;
                    go(c, &attributed(vec![R(3, vec![1, 0, 0, 18]), R(code, f)], vec![R(2, vec![1])]), M05)?;
                    go(c, &attributed(vec![R(3, vec![1, 0, 0, 18])], vec![R(2, vec![1]), R(code, vec![1; n])]), M05)?;
                }
            }
            Ok(())
        },
    );
    // Lists of groups.
    let n = c.q(5, 6);
    for (i, s) in sequences(5, n).chunks(60).enumerate() {
        c.case(
            || format!("lists of up to {n} groups, part {i}"),
            |c| {
                for s in s {
                    // Group 4 is unknown.
                    let groups: Vec<Node> = (0..4).map(|k| R(3, vec![k, [0, 0xffff_ffff, 1, 2][k as usize], 0, 18 + k])).collect();
                    let l = R(2, s.iter().map(|k| *k as u64).collect());
                    go(c, &attributed(groups.clone(), vec![l.clone()]), M05)?;
                    go(c, &attributed(groups.clone(), vec![R(2, vec![3]), l.clone(), R(2, vec![])]), M05)?;
                    go(c, &attributed(groups, vec![R(2, vec![]), l, R(2, vec![2, 1])]), M05)?;
                }
                Ok(())
            },
        );
    }
    c.case(
        || "longer lists, with every two of their groups being the same".into(),
        |c| {
            for n in 2..c.q(20, 60u64) {
                // Everywhere from the first group ID on, in order, and in the opposite order.
                for down in [false, true] {
                    let id = |k: u64| if down { n - k } else { k + 1 };
                    let groups: Vec<Node> = (0..n).map(|k| R(3, vec![k + 1, k % 5, 1, 41, k + 1])).collect();
                    let twice: Vec<Node> = [&groups[..], &[R(3, vec![n, 0, 0, 18])]].concat();
                    for i in 0..n {
                        for j in i + 1..n {
                            let mut l: Vec<u64> = (0..n).map(id).collect();
                            l[j as usize] = l[i as usize];
                            let l = R(2, l);
                            go(c, &attributed(groups.clone(), vec![l.clone()]), M05)?;
                            go(c, &attributed(groups.clone(), vec![l.clone(), R(2, vec![id(j)]), l.clone()]), M05)?;
                            // Two groups with this ID.
                            go(c, &attributed(twice.clone(), vec![l]), M05)?;
                        }
                    }
                }
            }
            Ok(())
        },
    );
    for first in 0..8u64 {
        let n = c.q(9, 12);
        c.case(
            || format!("lists of up to {n} of two groups, part {first}"),
            |c| {
                for ids in [[1u64, 2], [7, 6], [5, 5]] {
                    let groups: Vec<Node> = (1..8).map(|k| R(3, vec![k, k % 3, 1, 41, k])).collect();
                    for s in sequences(2, n - 3) {
                        let l = (0..3).map(|b| (first >> b & 1) as usize).chain(s.iter().copied()).map(|k| ids[k]).collect();
                        go(c, &attributed(groups.clone(), vec![R(2, vec![3]), R(2, l)]), M05)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "many lists and groups".into(),
        |c| {
            for n in 1..c.q(60, 300u64) {
                let groups: Vec<Node> = (0..n).map(|k| R(3, vec![k + 1, k % 5, 1, 41, k + 1])).collect();
                let lists: Vec<Node> = (0..n).map(|k| R(2, vec![n - k, k / 2 + 1])).collect();
                go(c, &attributed(groups.clone(), lists.clone()), M05)?;
                go(c, &attributed(groups.into_iter().rev().collect(), vec![R(2, (1..=n).collect())]), M05)?;
            }
            Ok(())
        },
    );
    // The blocks: in every order, missing, or repeated.
    let parts = [
        R(1, vec![2]),
        fn_types(),
        vst(),
        B(GROUPS, vec![R(3, vec![1, 0, 0, 18]), R(3, vec![2, 0xffff_ffff, 1, 41, 9])]),
        B(PARAMATTR, vec![R(2, vec![2]), R(2, vec![1, 2])]),
        R(8, vec![0, 2, 1, 0, 0, 0, 2, 0, 0, 0]),
    ];
    for (i, ps) in permutations(6).chunks(120).enumerate() {
        c.case(
            || format!("every order of the blocks, part {i}"),
            |c| {
                for p in ps {
                    let m: Vec<Node> = p.iter().map(|k| parts[*k].clone()).collect();
                    go(c, &file(m.clone(), b"xx"), M05)?;
                    for k in 0..6 {
                        let mut n = m.clone();
                        n.push(m[k].clone());
                        go(c, &file(n, b"xx"), M05)?;
                        let mut n = m.clone();
                        n.remove(k);
                        go(c, &file(n, b"xx"), M05)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "empty blocks, and several modules".into(),
        |c| {
            go(c, &attributed(vec![], vec![]), M05)?;
            go(c, &attributed(vec![], vec![R(2, vec![])]), M05)?;
            go(c, &typed(fn_types(), vec![B(PARAMATTR, vec![])], b"xx"), M05)?;
            go(c, &typed(fn_types(), vec![B(PARAMATTR, vec![]), function(0, 2)], b"xx"), M05)?;
            go(c, &typed(fn_types(), vec![B(PARAMATTR, vec![R(2, vec![1])])], b"xx"), M05)?;
            // A module's groups aren't another's.
            for (a, b) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
                let mut d = attributed(vec![R(3, vec![a, 0, 0, 18])], vec![R(2, vec![a])]);
                d.extend(attributed(vec![R(3, vec![b, 1, 1, 41, 8])], vec![R(2, vec![a])]));
                go(c, &d, M05)?;
            }
            Ok(())
        },
    );
    // Many groups, lists and attributes, and long texts.
    for n in many(c) {
        c.case(
            || format!("{n} groups and lists"),
            |c| {
                let groups: Vec<Node> = (0..n).map(|k| R(3, vec![k + 1, k % 5, 1, 41, k + 1])).collect();
                let lists: Vec<Node> = (0..n).map(|k| R(2, vec![n - k, k / 2 + 1])).collect();
                go(c, &attributed(groups.clone(), lists.clone()), M05)?;
                // One that isn't there.
                for k in [0, n / 2, n - 1] {
                    let mut l = lists.clone();
                    l[k as usize] = R(2, vec![1, n + 1]);
                    go(c, &attributed(groups.clone(), l), M05)?;
                }
                go(c, &attributed(groups.clone(), vec![R(2, (1..=n).collect())]), M05)?;
                let mut m = attributed(groups, lists);
                let B(_, inner) = &mut m[1] else { unreachable!() };
                inner.push(R(8, vec![0, 2, 1, 0, 0, 0, n + 1, 0, 0, 0]));
                go(c, &m, M05)
            },
        );
        c.case(
            || format!("groups of {n} attributes, and texts of {n} characters"),
            |c| {
                let enums = (0..n).flat_map(|k| [0, [18, 34, 26][k as usize % 3]]).collect::<Vec<_>>();
                go(c, &one_group(enums), M05)?;
                let ints = (0..n).flat_map(|k| [1, 41, k]).collect::<Vec<_>>();
                go(c, &one_group(ints), M05)?;
                let texts = (0..n).flat_map(|k| [&[3 + k % 2][..], &text(&format!("key{k}")), &[0], if k % 2 == 1 { &[118, 0] } else { &[] }].concat()).collect::<Vec<_>>();
                go(c, &one_group(texts), M05)?;
                let t = long_text(n);
                for tail in [&[0][..], &[], &[0, 0, 18]] {
                    go(c, &one_group([&[3][..], &t, tail].concat()), M05)?;
                    go(c, &one_group([&[4][..], &t, &[0, 118], tail].concat()), M05)?;
                    go(c, &one_group([&[4, 107, 0][..], &t, tail].concat()), M05)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M06 to M08

/// A module with two attribute lists, three sections and two collectors (if these are so many).
fn rich(lists: u64, sections: u64, gcs: u64, records: Vec<Node>, version: u64) -> Doc {
    let mut m = vec![R(1, vec![version])];
    for i in 0..sections {
        m.push(R(5, text(&format!(".section{i}"))));
    }
    for i in 0..gcs {
        m.push(R(11, text(&format!("gc-{i}"))));
    }
    m.push(B(GROUPS, (1..=lists.max(1)).map(|i| R(3, vec![i, i, 1, 41, i * 8])).collect()));
    if lists > 0 {
        m.push(B(PARAMATTR, (1..=lists).map(|i| R(2, vec![i])).collect()));
    }
    m.push(types(vec![R(2, vec![]), R(21, vec![0, 0]), R(7, vec![32]), R(21, vec![1, 2, 2, 2]), R(8, vec![1, 0]), R(25, vec![1])]));
    m.extend(records);
    m.push(vst());
    file(m, b"mainfoobar")
}

/// Every single and every pair of fields.
fn fields(c: &mut Ctx, what: &'static str, code: u64, bases: &[&[u64]], small: &[u64], m: u32) {
    let base = bases[0];
    let len = base.len();
    let with = |f: Vec<u64>| rich(2, 3, 2, vec![R(code, f)], 2);
    for i in 0..len {
        c.case(
            || format!("{what}, every value of field {i}"),
            |c| {
                let mut v = boundary_values();
                v.extend(0..c.q(5000, 70_000));
                v.extend((0..60).map(|x| x + (1 << 32)));
                v.extend((0..100).map(|x| x + (1 << 8)));
                v.extend((0..70).map(|x| x + (1 << 16)));
                for &x in &v {
                    let mut f = base.to_vec();
                    f[i] = x;
                    go(c, &with(f.clone()), m)?;
                    // As the last field, too.
                    f.truncate(i + 1);
                    go(c, &with(f), m)?;
                }
                Ok(())
            },
        );
        c.case(
            || format!("{what}, every encoding of field {i}"),
            |c| {
                for x in [0, 1, 2, 3, 5, 31, 32, 63, 64, 255, 256, 1 << 31, 1 << 32, u64::MAX] {
                    let mut f = base.to_vec();
                    f[i] = x;
                    for e in 0..40 {
                        run(c, &with(f.clone()), &enc(e), LAX, m)?;
                    }
                }
                Ok(())
            },
        );
        for j in i + 1..len {
            c.case(
                || format!("{what}, pairs of values of fields {i} and {j}"),
                |c| {
                    for base in bases {
                        for x in small {
                            for y in small {
                                let mut f = base.to_vec();
                                f[i] = *x;
                                f[j] = *y;
                                c.state(&f);
                                go(c, &with(f), m)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
            // A few values of every third field, too.
            c.case(
                || format!("{what}, triples of values of fields {i}, {j} and another one"),
                |c| {
                    let few = c.q(&[0, 1, 2, 3][..], &[0, 1, 2, 3, 5, 8]);
                    for k in j + 1..len {
                        for base in bases {
                            for x in few {
                                for y in few {
                                    for z in few {
                                        let mut f = base.to_vec();
                                        f[i] = *x;
                                        f[j] = *y;
                                        f[k] = *z;
                                        go(c, &with(f), m)?;
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.case(
        || format!("{what}, every length"),
        |c| {
            for n in 0..40usize {
                for fill in 0..4 {
                    let mut f: Vec<u64> = base.iter().copied().take(n).collect();
                    f.resize(n, fill);
                    go(c, &with(f.clone()), m)?;
                    if n > 3 {
                        for x in &mut f[3..] {
                            *x = fill;
                        }
                        go(c, &with(f), m)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || format!("{what}, every version"),
        |c| {
            for v in (0..300).chain(boundary_values()) {
                go(c, &rich(2, 3, 2, vec![R(code, base.to_vec())], v), m)?;
                go(c, &rich(2, 3, 2, vec![], v), m)?;
            }
            Ok(())
        },
    );
}

/// Several records of a kind, and their places in the module.
fn several(c: &mut Ctx, what: &'static str, code: u64, kinds: &[Vec<u64>], m: u32) {
    let n = c.q(3, 4);
    for (i, s) in sequences(kinds.len(), n).chunks(200).enumerate() {
        c.case(
            || format!("{what}, sequences of up to {n} records, part {i}"),
            |c| {
                for s in s {
                    let r: Vec<Node> = s.iter().map(|k| R(code, kinds[*k].clone())).collect();
                    c.state(s);
                    go(c, &rich(2, 3, 2, r, 2), m)?;
                }
                Ok(())
            },
        );
    }
    c.case(
        || format!("{what}, anywhere in the module"),
        |c| {
            for k in kinds {
                let mut d = rich(2, 3, 2, vec![], 2);
                let B(_, inner) = &mut d[1] else { unreachable!() };
                let inner = inner.clone();
                for i in 0..=inner.len() {
                    for j in i..=inner.len() {
                        let mut x = inner.clone();
                        x.insert(j, R(code, kinds[0].clone()));
                        x.insert(i, R(code, k.clone()));
                        d[1] = B(MODULE, x);
                        go(c, &d, m)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || format!("{what}, many"),
        |c| {
            for n in 1..c.q(60, 300) {
                let r = (0..n).map(|i| R(code, kinds[i % kinds.len()].clone())).collect();
                go(c, &rich(2, 3, 2, r, 2), m)?;
                // Only ones that are right.
                let right: Vec<Node> = kinds.iter().map(|k| R(code, k.clone())).filter(|k| LAX.document(&rich(2, 3, 2, vec![k.clone()], 2)).is_ok()).collect();
                for first in 0..right.len() {
                    let r = (0..n).map(|i| right[(first + i) % right.len()].clone()).collect();
                    go(c, &rich(2, 3, 2, r, 2), m)?;
                }
            }
            Ok(())
        },
    );
}

/// Names from all over a large string table.
fn names(c: &mut Ctx, what: &'static str, code: u64, base: &[u64], m: u32) {
    c.case(
        || format!("{what}: names with every character, at every offset"),
        |c| {
            for ch in (0..128u32).chain([0x80, 0xe9, 0x7ff, 0x800, 0x2028, 0xfeff, 0xffff, 0x1_0000, 0x10_ffff]).filter_map(char::from_u32) {
                for t in [format!("{ch}x1{ch}"), format!("y{ch}z{ch}{ch}"), format!("{ch}").repeat(4)] {
                    for off in 0..t.len() as u64 {
                        for size in 1..=t.len() as u64 + 1 - off {
                            let mut d = rich(2, 3, 2, vec![], 2);
                            let B(_, inner) = &mut d[1] else { unreachable!() };
                            let mut f = base.to_vec();
                            f[0] = off;
                            f[1] = size;
                            inner.push(R(code, f));
                            d[2] = strtab(t.as_bytes());
                            go(c, &d, m)?;
                        }
                    }
                }
            }
            Ok(())
        },
    );
    let n = 700u64;
    for kind in 0..2 {
        let table: Vec<u8> = match kind {
            0 => long_text(n).iter().map(|x| *x as u8).collect(),
            _ => "né".bytes().cycle().take(n as usize).collect(),
        };
        let doc = |off: u64, size: u64, other: u64| {
            let mut d = rich(2, 3, 2, vec![], 2);
            let B(_, inner) = &mut d[1] else { unreachable!() };
            for (o, s) in [(off, size), (other, 6)] {
                let mut f = base.to_vec();
                f[0] = o;
                f[1] = s;
                inner.push(R(code, f));
            }
            d[2] = strtab(&table);
            d
        };
        c.case(
            || format!("{what}: names at every offset of a string table, {kind}"),
            |c| {
                for off in 0..=n + 1 {
                    for size in [1, 2, 3, 6, 8, 17, 64, 100, 255, 256, 257, n.saturating_sub(off), (n + 1).saturating_sub(off)] {
                        go(c, &doc(off, size, 3), m)?;
                    }
                    go(c, &doc(3, 6, off), m)?;
                }
                Ok(())
            },
        );
        c.case(
            || format!("{what}: names of every size, {kind}"),
            |c| {
                for size in 0..=n + 1 {
                    for off in [0, 1, 3, 64, 90, 100, 200, 255, 256, 300, n - 1] {
                        go(c, &doc(off, size, 0), m)?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// Records that refer to one of many types.
fn many_types(c: &mut Ctx, what: &'static str, m: u32, f: impl Fn(u64) -> Node) {
    for n in many(c) {
        c.case(
            || format!("{what} of one of {n} types"),
            |c| {
                let mut t: Vec<Node> = (0..n).map(|i| R(7, vec![i + 1])).collect();
                t.extend((0..n).map(|i| R(21, vec![0, i])));
                let near = indexes(n);
                go(c, &typed(types(t.clone()), near.iter().map(|k| f(n + k)).collect(), b"xxxx"), m)?;
                go(c, &typed(types(t.clone()), near.iter().map(|k| f(*k)).collect(), b"xxxx"), m)?;
                for bad in [n - 1, 2 * n, 2 * n + 256, n + (1 << 16), n + (1 << 32), 1 << 63 | n] {
                    go(c, &typed(types(t.clone()), vec![f(n), f(bad)], b"xxxx"), m)?;
                }
                Ok(())
            },
        );
    }
}

pub fn m06(c: &mut Ctx) {
    const M: u32 = mask::FUNCTIONS | mask::RECORDS;
    let base = [0, 4, 3, 8, 1, 3, 1, 5, 1, 1, 1, 1, 0, 2, 0, 0, 0, 1, 0];
    let other = [4, 3, 1, 0, 0, 0, 0, 0, 0, 0];
    let plain = [0, 4, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let mut small: Vec<u64> = (0..c.q(36, 130)).collect();
    small.extend([63, 64, 65, 255, 256, 1 << 32]);
    fields(c, "function", 8, &[&base, &plain], &small, M);
    several(c, "function", 8, &[other.to_vec(), base.to_vec(), vec![7, 3, 3, 64, 1, 7, 2, 1, 3, 2, 2], vec![0, 0, 1, 9, 1, 9, 0, 64, 2, 0, 0, 2, 0, 1]], M);
    names(c, "function", 8, &base, M);
    // Conventions.
    c.case(
        || "calling conventions with and without flags in front".into(),
        |c| {
            for (cc, _) in CALLING_CONVENTIONS {
                for shift in 0..64u64 {
                    let mut f = base.to_vec();
                    f[3] = cc | 1 << shift;
                    go(c, &rich(2, 3, 2, vec![R(8, f.clone())], 2), M)?;
                    f[3] = cc.wrapping_shl(shift as u32);
                    go(c, &rich(2, 3, 2, vec![R(8, f)], 2), M)?;
                }
            }
            Ok(())
        },
    );
    // Indices into the tables.
    for (field, name) in [(6, "attribute lists"), (8, "sections"), (10, "collectors"), (2, "types")] {
        c.case(
            || format!("indices into {name}"),
            |c| {
                for n in 0..12u64 {
                    let (l, s, g) = match field {
                        6 => (n, 1, 1),
                        8 => (1, n, 1),
                        10 => (1, 1, n),
                        _ => (1, 1, 1),
                    };
                    for i in (0..16).chain(boundary_values()) {
                        let mut f = base.to_vec();
                        f[6] = 0;
                        f[8] = 0;
                        f[10] = 0;
                        f[field] = i;
                        go(c, &rich(l, s, g, vec![R(8, f)], 2), M)?;
                    }
                }
                Ok(())
            },
        );
    }
    // Records out of the tables' order: sections behind the functions that use them.
    c.case(
        || "sections and collectors behind the functions".into(),
        |c| {
            for i in 0..4 {
                for j in 0..4 {
                    let mut f = base.to_vec();
                    f[8] = i;
                    f[10] = j;
                    let mut v = vec![R(8, f)];
                    for at in 0..=3 {
                        let extra = [R(5, text("late")), R(11, text("lategc")), R(5, text("later")), R(11, text("latergc"))];
                        v.insert(at.min(v.len()), extra[at].clone());
                        go(c, &rich(1, 0, 0, v.clone(), 2), M)?;
                        go(c, &rich(1, 1, 1, v.clone(), 2), M)?;
                    }
                }
            }
            Ok(())
        },
    );
    // Two modules: each one's indices refer to its own tables.
    c.case(
        || "two modules".into(),
        |c| {
            for a in 0..3u64 {
                for b in 0..3u64 {
                    for i in 0..4 {
                        for field in [6, 8, 10] {
                            let mut f = base.to_vec();
                            f[6] = 0;
                            f[8] = 0;
                            f[10] = 0;
                            f[field] = i;
                            let mut d = rich(a, a, a, vec![R(8, other.to_vec())], 2);
                            d.extend(rich(b, b, b, vec![R(8, f)], 2));
                            go(c, &d, M)?;
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // Many of everything.
    for n in many(c) {
        c.case(
            || format!("{n} functions, lists, sections and collectors"),
            |c| {
                let with = |list: u64, section: u64, gc: u64| {
                    let mut f = base.to_vec();
                    (f[6], f[8], f[10]) = (list, section, gc);
                    R(8, f)
                };
                go(c, &rich(2, 3, 2, (0..n).map(|k| with(k % 3, k % 4, k / 2 % 3)).collect(), 2), M)?;
                let mut near = indexes(n);
                near.push(n);
                let near = near.into_iter();
                go(c, &rich(n, n, n, near.clone().map(|k| with(k, n - k, k)).collect(), 2), M)?;
                go(c, &rich(n, 0, 0, near.clone().map(|k| with(k, 0, 0)).collect(), 2), M)?;
                go(c, &rich(0, n, 0, near.clone().map(|k| with(0, k, 0)).collect(), 2), M)?;
                go(c, &rich(0, 0, n, near.map(|k| with(0, 0, k)).collect(), 2), M)?;
                for d in [1, 256, 1 << 16, 1 << 32] {
                    for bad in [with(n + d, 1, 1), with(1, n + d, 1), with(1, 1, n + d)] {
                        go(c, &rich(n, n, n, vec![with(1, 1, 1), bad], 2), M)?;
                    }
                }
                Ok(())
            },
        );
    }
    many_types(c, "function", M, |k| R(8, vec![0, 4, k, 0, 0, 0, 0, 0, 0, 0]));
    for n in many(c) {
        c.case(
            || format!("records of {n} fields"),
            |c| {
                for fill in [0, 1, 2, u64::MAX] {
                    let mut f = base.to_vec();
                    f.resize(n as usize, fill);
                    go(c, &rich(2, 3, 2, vec![R(8, f.clone()), R(8, base.to_vec())], 2), M)?;
                }
                Ok(())
            },
        );
    }
}

pub fn m07(c: &mut Ctx) {
    const M: u32 = mask::ALIASES;
    let base = [0, 4, 2, 3, 9, 7, 1, 2, 3, 1, 1, 6, 5];
    let plain = [0, 4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let mut small: Vec<u64> = (0..c.q(36, 130)).collect();
    small.extend([63, 64, 65, 255, 256, 1 << 32]);
    fields(c, "alias", 14, &[&base, &plain], &small, M);
    several(c, "alias", 14, &[vec![0, 4, 2, 0, 0, 0], base.to_vec(), vec![4, 3, 5, 1, 1 << 40, 10, 2], vec![7, 3, 4, 0, 1, 16, 0, 1, 4, 2, 0], vec![0, 0, 0, 0, 0, 3]], M);
    names(c, "alias", 14, &base, M);
    c.case(
        || "aliases among functions".into(),
        |c| {
            for s in sequences(3, c.q(6, 7)) {
                let v = s
                    .iter()
                    .map(|k| match k {
                        0 => R(8, vec![0, 4, 1, 0, 0, 0, 0, 0, 0, 0]),
                        1 => R(14, vec![4, 3, 2, 0, 7, 3]),
                        _ => R(14, vec![7, 3, 5, 0, 8, 1, 1]),
                    })
                    .collect();
                go(c, &rich(0, 0, 0, v, 2), M | mask::FUNCTIONS)?;
            }
            Ok(())
        },
    );
    many_types(c, "alias", mask::ALIASES | mask::RECORDS, |k| R(14, vec![0, 4, k, 0, k, 0]));
    for n in many(c) {
        c.case(
            || format!("{n} aliases, and records of {n} fields"),
            |c| {
                let f = |k: u64| R(14, vec![k % 8, 2, 2, k % 3, k, k % 20, k % 3, k % 3, k % 5, k % 3, k % 2]);
                go(c, &rich(2, 3, 2, (0..n).map(f).collect(), 2), mask::ALIASES | mask::RECORDS)?;
                for fill in [0, 1, 2, u64::MAX] {
                    let R(_, mut v) = f(7) else { unreachable!() };
                    v.resize(n as usize, fill);
                    go(c, &rich(2, 3, 2, vec![R(14, v), f(8)], 2), mask::ALIASES | mask::RECORDS)?;
                }
                Ok(())
            },
        );
    }
}

pub fn m08(c: &mut Ctx) {
    const M: u32 = mask::COMDATS;
    let base = [0, 4, 3];
    let mut small: Vec<u64> = (0..c.q(80, 200)).collect();
    small.extend([255, 256, 1 << 32, (1 << 32) + 1, u64::MAX]);
    fields(c, "COMDAT", 12, &[&base], &small, M);
    several(c, "COMDAT", 12, &[vec![0, 4, 1], vec![4, 3, 2], vec![7, 3, 3], vec![0, 7, 4], vec![1, 9, 5], vec![0, 4, 0], vec![9, 2, 1], vec![0, 0, 1], vec![0, 4]], M);
    names(c, "COMDAT", 12, &base, M);
    c.case(
        || "every triple of small values".into(),
        |c| {
            for off in 0..12 {
                for size in 0..12 {
                    for kind in 0..8 {
                        go(c, &rich(0, 0, 0, vec![R(12, vec![off, size, kind])], 2), M)?;
                        go(c, &rich(0, 0, 0, vec![R(12, vec![off, size, kind])], 1), M)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "the old format".into(),
        |c| {
            // [selection kind, length, characters...]
            for n in 0..20 {
                for version in 0..4 {
                    let f = [&[1, n][..], &vec![97; n as usize]].concat();
                    go(c, &rich(0, 0, 0, vec![R(12, f)], version), M)?;
                }
            }
            Ok(())
        },
    );
    for n in many(c) {
        c.case(
            || format!("{n} COMDATs, and records of {n} fields"),
            |c| {
                go(c, &rich(0, 0, 0, (0..n).map(|k| R(12, vec![k % 8, 1 + k % 3, 1 + k % 5])).collect(), 2), M)?;
                for fill in [0, 1, 2, u64::MAX] {
                    let mut v = vec![0, 4, 3];
                    v.resize(n as usize, fill);
                    go(c, &rich(0, 0, 0, vec![R(12, v), R(12, vec![1, 2, 1])], 2), M)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M09

fn layout(c: &Ctx, s: &str) -> Result<(), String> {
    c.transitions(1);
    let want = Dl::parse(s);
    let got = s.parse::<DataLayout>();
    let r = match (&want, &got) {
        (Err(Stop::Unspec(_)), _) => {
            c.count("layouts whose meaning isn't specified", 1);
            Ok(())
        }
        (Err(Stop::Reject(_)), Err(_)) => {
            c.count("layouts rejected", 1);
            Ok(())
        }
        (Err(Stop::Reject(w)), Ok(g)) => Err(format!("expected an error ({w}), got {g:?}")),
        (Ok(_), Err(e)) => Err(format!("unexpected error {e:?}")),
        (Ok(w), Ok(g)) => {
            c.count("layouts parsed", 1);
            same(&seen(g), w)
        }
    };
    r.map_err(|e| format!("layout {s:?}: {e}"))
}

/// The layout, both directly and in a module.
fn layout_too(c: &Ctx, s: &str) -> Result<(), String> {
    c.step();
    c.trace();
    layout(c, s)?;
    for e in [PLAIN, enc(1), enc(4)] {
        run(c, &plain(vec![R(3, text(s))]), &e, LAX, mask::LAYOUT)?;
    }
    Ok(())
}

/// Specifications of every kind, some of them malformed.
const SPECS: [&str; 86] = [
    "e",
    "E",
    "S128",
    "S64",
    "S7",
    "S",
    "P1",
    "P0",
    "G2",
    "A5",
    "A",
    "A8388607",
    "A8388608",
    "p:64:64",
    "p:32:32:64",
    "p0:16:32:64:8",
    "p1:32:64",
    "p270:32:32",
    "p1:64:64:32",
    "p",
    "p:64",
    "p8388608:32:32",
    "p2:64:64:64:32",
    "i1:8",
    "i64:64",
    "i64:32:64",
    "i8:8:32",
    "i128:128",
    "i64:64:32",
    "i0:8",
    "i:8",
    "i9",
    "i24:24",
    "v64:64",
    "v96:128:256",
    "f80:128",
    "f80:32",
    "f16:16",
    "a:0:64",
    "a:64",
    "a:0",
    "a:8:16",
    "a1:8",
    "a",
    "Fi8",
    "Fn32",
    "F8",
    "Fx8",
    "Fi12",
    "m:e",
    "m:o",
    "m:x",
    "m:w",
    "m:m",
    "m:a",
    "m:q",
    "m",
    "m:ee",
    "n8:16:32:64",
    "n32",
    "n",
    "n:8",
    "n0",
    "ni:1",
    "ni:1:2:3",
    "ni:0",
    "ni",
    "ni1",
    "nx",
    "",
    "x",
    "n8:16:32:64:128:256",
    "ni:1:2:3:4:5:6:7",
    "é",
    "i8388607:8",
    "i8388608:8",
    "v1:262144",
    "v1:524288",
    "i32:+8",
    "i32:8 ",
    "E1",
    "p3:+32:32",
    "p3:32:32:16",
    "Fi64",
    "S256",
    "P8388607",
];

/// What LLVM itself uses for its targets.
const REAL: [&str; 40] = [
    "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128",
    "e-m:o-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128",
    "e-m:w-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128",
    "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-f64:32:64-f80:32-n8:16:32-S128",
    "e-m:x-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:32-n8:16:32-a:0:32-S32",
    "e-m:o-p:32:32-p270:32:32-p271:32:32-p272:64:64-f64:32:64-f80:128-n8:16:32-S128",
    "e-m:e-i8:8:32-i16:16:32-i64:64-i128:128-n32:64-S128",
    "E-m:e-i8:8:32-i16:16:32-i64:64-i128:128-n32:64-S128",
    "e-m:o-i64:64-i128:128-n32:64-S128",
    "e-m:o-p:32:32-i64:64-i128:128-n32:64-S128",
    "e-m:w-p:64:64-i32:32-i64:64-i128:128-n32:64-S128",
    "e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "E-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "e-m:o-p:32:32-Fi8-f64:32:64-v64:32:64-v128:32:128-a:0:32-n32-S32",
    "e-m:w-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "E-m:e-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "e-m:e-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "E-m:a-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "E-m:e-Fn32-i64:64-n32:64",
    "E-m:e-Fi64-i64:64-n32:64",
    "E-m:e-p:32:32-i64:64-n32",
    "e-m:e-p:64:64-i64:64-i128:128-n32:64-S128",
    "e-m:e-p:32:32-i64:64-n32-S128",
    "E-m:m-p:32:32-i8:8:32-i16:16:32-i64:64-n32-S64",
    "e-m:e-i8:8:32-i16:16:32-i64:64-n32:64-S128",
    "E-m:e-i1:8:16-i8:8:16-i64:64-f128:64-a:8:16-n32:64",
    "E-m:e-i1:8:16-i8:8:16-i64:64-f128:64-v128:64-a:8:16-n32:64",
    "e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p4:64:64-p5:32:32-p6:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1-ni:7",
    "e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p4:64:64-p5:32:32-p6:32:32-p7:160:256:256:32-p8:128:128-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1-ni:7:8",
    "e-i64:64-i128:128-v16:16-v32:32-n16:32:64",
    "e-p:32:32-i64:64-i128:128-v16:16-v32:32-n16:32:64",
    "e-m:e-p:32:32-p10:8:8-p20:8:8-i64:64-n32:64-S128-ni:1:10:20",
    "e-m:e-p:32:32:32-a:0-n16:32-i64:64:64-i32:32:32-i16:16:16-i1:8:8-f32:32:32-f64:64:64-v32:32:32-v64:64:64-v512:512:512-v1024:1024:1024-v2048:2048:2048",
    "e-P1-p:16:8-i8:8-i16:8-i32:8-i64:8-f32:8-f64:8-n8-a:8",
    "e-m:e-p:16:16-i32:16-i64:16-f32:16-f64:16-a:8-n8:16-S16",
    "e-m:e-p:32:32-i1:8:32-i8:8:32-i16:16:32-i64:32-f64:32-a:0:32-n32",
    "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-G1",
    "e-m:e-p:64:64-i64:64-n64-S128-v64:64:64-v128:64:64-v256:64:64-v512:64:64-v1024:64:64-v2048:64:64-v4096:64:64-v8192:64:64-v16384:64:64",
    "E-m:e-p:32:16:32-i8:8:8-i16:16:16-i32:16:32-n8:16:32-a:0:16-S16",
];

pub fn m09(c: &mut Ctx) {
    // Every short string.
    const ALPHABET: [u8; 24] = *b"eESPGApivafFnmo:-0136824";
    const N: usize = ALPHABET.len();
    let len = c.q(5, 6);
    for (a, x) in ALPHABET.iter().enumerate() {
        for (b, y) in ALPHABET.iter().enumerate() {
            c.case(
                || format!("every string of up to {len} characters that starts with {:?}", String::from_utf8_lossy(&[*x, *y])),
                |c| {
                    fn go(c: &Ctx, s: &mut String, n: usize) -> Result<(), String> {
                        layout(c, s)?;
                        if n > 0 {
                            for x in ALPHABET {
                                s.push(x as char);
                                go(c, s, n - 1)?;
                                s.pop();
                            }
                        }
                        Ok(())
                    }
                    if a == 0 && b < N {
                        layout_too(c, &(*y as char).to_string())?;
                    }
                    let mut s = String::from_utf8_lossy(&[*x, *y]).to_string();
                    go(c, &mut s, len - 2)
                },
            );
        }
    }
    // Every short string behind a prefix.
    const DIGITS: [u8; 9] = *b"0168234:-";
    let prefixes = [
        "p:",
        "p1:",
        "p0:64:",
        "p:8:8:",
        "p:32:32:32:",
        "i8:",
        "i16:16:",
        "i",
        "v64:",
        "v",
        "f32:32:",
        "f",
        "a:",
        "a:8:",
        "Fi",
        "Fn",
        "n8:",
        "n",
        "ni:",
        "ni:1:",
        "S",
        "P",
        "G",
        "A",
        "e-",
        "m:",
        "E-e-",
    ];
    let len = c.q(4, 6);
    for p in prefixes {
        for d in DIGITS {
            c.case(
                || format!("every string of {len} digits, colons and dashes behind {p}{}", d as char),
                |c| {
                    let mut s = format!("{p}{}", d as char);
                    fn go(c: &Ctx, s: &mut String, n: usize) -> Result<(), String> {
                        layout(c, s)?;
                        if n > 0 {
                            for x in DIGITS {
                                s.push(x as char);
                                go(c, s, n - 1)?;
                                s.pop();
                            }
                        }
                        Ok(())
                    }
                    go(c, &mut s, len)
                },
            );
        }
    }
    // Sequences of specifications.
    for (i, a) in SPECS.iter().enumerate() {
        c.case(
            || format!("sequences of specifications that start with {a:?}"),
            |c| {
                layout_too(c, a)?;
                for b in SPECS {
                    layout_too(c, &format!("{a}-{b}"))?;
                    for d in SPECS {
                        layout(c, &format!("{a}-{b}-{d}"))?;
                        if c.thorough() || i < 2 {
                            for e in SPECS {
                                layout(c, &format!("{a}-{b}-{d}-{e}"))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Histories of specifications for the same things.
    let histories: [(&str, &[&str]); 7] = [
        ("pointers", &["p:64:64", "p:32:32", "p1:16:16", "p1:32:64", "p0:64:128:256:32", "p2:64:64", "p8388607:8:8"]),
        ("integers", &["i8:8", "i8:16", "i64:64", "i64:8:16", "i7:8", "i128:128", "i1:32:32", "i16:8"]),
        ("vectors and floats", &["v64:8", "v64:64", "f64:8", "f64:32:64", "v8:8", "f8:8", "f16:64", "v128:32:64"]),
        ("aggregates", &["a:0", "a:0:64", "a:32", "a:8:128", "i64:64", "v64:128"]),
        ("address spaces", &["P1", "P2", "G1", "G2", "A1", "A2", "P0"]),
        ("lists", &["n8", "n16:32", "n8:16:32:64", "ni:1", "ni:2:3", "ni:3:2:1", "n32-ni:4"]),
        ("single values", &["e", "E", "S8", "S16", "Fi8", "Fn16", "m:e", "m:o"]),
    ];
    for (name, specs) in histories {
        for first in 0..specs.len() {
            let n = c.q(4, 6);
            c.case(
                || format!("histories of up to {} specifications of {name} that start with {}", n + 1, specs[first]),
                |c| {
                    for s in sequences(specs.len(), n) {
                        let v: Vec<&str> = std::iter::once(first).chain(s).map(|k| specs[k]).collect();
                        let s = v.join("-");
                        c.state(&s);
                        layout(c, &s)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // Numbers.
    c.case(
        || "numbers".into(),
        |c| {
            let mut v: Vec<String> = boundary_values().iter().map(|v| v.to_string()).collect();
            v.extend((0..1100).map(|v: u32| v.to_string()));
            v.extend(
                [
                    "18446744073709551616",
                    "18446744073709551624",
                    "4294967304",
                    "99999999999999999999999",
                    "00",
                    "08",
                    "0008",
                    "000000000000000000000000000032",
                    "+8",
                    "-8",
                    "8+",
                    " 8",
                    "8 ",
                    "0x8",
                    "8.0",
                    "8e1",
                    "_8",
                    "٨",
                    "８",
                ]
                .map(String::from),
            );
            for n in &v {
                for s in [
                    format!("S{n}"),
                    format!("P{n}"),
                    format!("G{n}"),
                    format!("A{n}"),
                    format!("p{n}:32:32"),
                    format!("p:{n}:32"),
                    format!("p:32:{n}"),
                    format!("p:32:{n}:{n}"),
                    format!("p:32:8:{n}"),
                    format!("p:32:32:32:{n}"),
                    format!("p:{n}:32:32:{n}"),
                    format!("i{n}:8"),
                    format!("i{n}:8:16"),
                    format!("i32:{n}"),
                    format!("i32:{n}:{n}"),
                    format!("i32:8:{n}"),
                    format!("i32:64:{n}"),
                    format!("v{n}:8"),
                    format!("v32:{n}"),
                    format!("v32:8:{n}"),
                    format!("f{n}:8"),
                    format!("f32:{n}"),
                    format!("f32:16:{n}"),
                    format!("a:{n}"),
                    format!("a{n}:8"),
                    format!("a:0:{n}"),
                    format!("a:16:{n}"),
                    format!("Fi{n}"),
                    format!("Fn{n}"),
                    format!("n{n}"),
                    format!("n8:{n}"),
                    format!("n{n}:8"),
                    format!("ni:{n}"),
                    format!("ni:{n}:1"),
                    format!("ni:1:{n}"),
                    format!("ni{n}"),
                    format!("m:{n}"),
                    format!("e{n}"),
                    n.to_string(),
                ] {
                    layout_too(c, &s)?;
                    layout(c, &format!("e-{s}-m:e"))?;
                }
            }
            Ok(())
        },
    );
    // Every width with every alignment.
    for k in ['i', 'v', 'f'] {
        c.case(
            || format!("every alignment of {k}"),
            |c| {
                let widths: Vec<u64> = (1..130).chain((8..23).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).collect();
                for w in widths {
                    for a in 0..24 {
                        layout(c, &format!("{k}{w}:{}", 1u64 << a))?;
                        for p in 0..24 {
                            layout(c, &format!("{k}{w}:{}:{}", 1u64 << a, 1u64 << p))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "every alignment of pointers, aggregates, functions and the stack".into(),
        |c| {
            for a in 0..64 {
                let a = 1u64 << a;
                layout(c, &format!("S{a}"))?;
                layout(c, &format!("Fi{a}-Fn8"))?;
                layout(c, &format!("Fn{a}"))?;
                layout(c, &format!("a:{a}"))?;
                layout(c, &format!("p:64:{a}"))?;
                for p in 0..64 {
                    let p = 1u64 << p;
                    layout(c, &format!("a:{a}:{p}"))?;
                    layout(c, &format!("p:64:{a}:{p}"))?;
                    layout(c, &format!("p3:64:{a}:{p}:32"))?;
                    layout(c, &format!("a:0:{p}"))?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "every character behind every kind of specification".into(),
        |c| {
            for k in (0..0x250).chain([0x2011, 0xff10, 0x1f600]).filter_map(char::from_u32) {
                layout(c, &k.to_string())?;
                for s in ["e", "S8", "P1", "p:8:8", "i8:8", "a:8", "Fi8", "F", "m:", "m:e", "n8", "n", "ni:1", "ni", "i", "p", "v64", "v64:"] {
                    layout_too(c, &format!("{s}{k}"))?;
                    layout(c, &format!("{k}{s}"))?;
                    layout(c, &format!("e-{k}-{s}"))?;
                    layout(c, &format!("{s}{k}8"))?;
                }
            }
            Ok(())
        },
    );
    // The layouts of LLVM's targets, whole and changed.
    for s in REAL {
        c.case(
            || format!("layout {s}, whole, and with specifications cut, removed, doubled and swapped"),
            |c| {
                layout_too(c, s)?;
                for n in 1..s.len() {
                    layout(c, &s[..n])?;
                    layout(c, &s[n..])?;
                    for x in ["-", ":", "0", "8", "x"] {
                        layout(c, &format!("{}{x}{}", &s[..n], &s[n..]))?;
                        layout(c, &format!("{}{x}{}", &s[..n], &s[n + 1..]))?;
                    }
                }
                let parts: Vec<&str> = s.split('-').collect();
                for i in 0..parts.len() {
                    let mut p = parts.clone();
                    p.remove(i);
                    layout_too(c, &p.join("-"))?;
                    for j in 0..parts.len() {
                        let mut p = parts.clone();
                        p.insert(j, parts[i]);
                        layout_too(c, &p.join("-"))?;
                        let mut p = parts.clone();
                        p.swap(i, j);
                        layout_too(c, &p.join("-"))?;
                    }
                }
                Ok(())
            },
        );
    }
    // Every specification at every place of rich layouts.
    const RICH: [&str; 4] = [
        "e-S128-P1-G2-A5-p:64:64-p1:32:32:64:32-p270:16:16-i1:8-i8:8:16-i64:32:64-i128:128-i24:32-v64:64-v128:64:128-f16:16-f80:128-a:8:64-Fn32-m:o-n8:16:32:64:128:256-ni:1:2:3:4:5:6:7",
        "ni:7:6:5:4:3:2-n256:128:64:32:16:8-m:w-Fi16-a:0:32-f128:64:128-f64:32-f32:16:64-v512:512-v256:128:256-v7:8-i256:64-i40:64-i16:8:32-p9:32:32-p2:64:128-p:16:16:32:8-A3-G3-P3-S32-E",
        "i8:16-i9:16-i10:16-i11:16-i12:16-i13:16-n1:2:3:4:5:6:7:8:9-ni:1:2-v1:8-v2:8-v3:8-v4:8-f1:8-f2:8-f3:8-p1:8:8-p2:8:8-p3:8:8-p4:8:8-p5:8:8",
        "S8-S16-S32-m:e-m:o-e-E-n8:16-n32:64-ni:5-ni:6:7-P1-P2-A1-A2-G1-G2-Fi8-Fn16-a:0-a:16:32-p:32:32-p:64:64",
    ];
    for r in RICH {
        c.case(
            || format!("every specification, and every pair, at every place of {r}"),
            |c| {
                layout_too(c, r)?;
                let parts: Vec<&str> = r.split('-').collect();
                for at in 0..=parts.len() {
                    for a in SPECS {
                        let mut p = parts.clone();
                        p.insert(at, a);
                        layout_too(c, &p.join("-"))?;
                        for b in SPECS {
                            let mut p = p.clone();
                            p.push(b);
                            layout(c, &p.join("-"))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.case(|| "layout record \"e\"".into(), |c| run(c, &plain(vec![R(3, text("e"))]), &PLAIN, STRICT, mask::LAYOUT));
    c.case(
        || "no layout, layouts of other modules, and layouts among other records".into(),
        |c| {
            go(c, &plain(vec![]), mask::LAYOUT)?;
            for a in ["e-S64", "E-p:32:32", "e-i64:64-n8"] {
                for b in [None, Some("e-S8"), Some("e-p1:8:8"), Some("x"), Some("e-")] {
                    let mut d = plain(vec![R(3, text(a))]);
                    d.extend(plain(b.iter().map(|b| R(3, text(b))).collect()));
                    go(c, &d, mask::LAYOUT)?;
                    let mut d = plain(b.iter().map(|b| R(3, text(b))).collect());
                    d.extend(plain(vec![R(3, text(a))]));
                    go(c, &d, mask::LAYOUT)?;
                    go(c, &plain(b.iter().map(|b| R(3, text(b))).chain([R(3, text(a))]).collect()), mask::LAYOUT)?;
                }
                for v in boundary_values().into_iter().filter(|v| *v > 127) {
                    let mut t = text(a);
                    t[1] = v;
                    go(c, &plain(vec![R(3, t)]), mask::LAYOUT)?;
                }
            }
            Ok(())
        },
    );
    // Long layouts.
    for n in [12u64, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 1000, c.q(2000, 70_001)] {
        c.case(
            || format!("{n} specifications, or lists of {n}"),
            |c| {
                let join = |sep: &str, f: &dyn Fn(u64) -> String| (0..n).map(f).collect::<Vec<_>>().join(sep);
                for back in [false, true] {
                    let k = |i: u64| if back { n - i } else { i + 1 };
                    for t in ["i", "v", "f"] {
                        layout_too(c, &join("-", &|i| format!("{t}{}:{}", k(i), 8 << (i % 5))))?;
                        layout(c, &join("-", &|i| format!("{t}{}:{}", k(i) * 3 % 64 + 1, 8 << (i % 5))))?;
                    }
                    layout_too(c, &join("-", &|i| format!("p{}:{}:32", k(i), 8 << (i % 5))))?;
                    layout_too(c, &join("-", &|i| format!("{}{}:{}", ["i", "v", "f"][i as usize % 3], k(i), 8 << (i % 5))))?;
                    layout_too(c, &format!("ni:{}", join(":", &|i| k(i).to_string())))?;
                    layout_too(c, &format!("n{}", join(":", &|i| k(i).to_string())))?;
                    layout_too(c, &join("-", &|i| format!("ni:{}", k(i))))?;
                    layout_too(c, &join("-", &|i| format!("n{}", k(i))))?;
                    layout_too(c, &join("-", &|i| format!("S{}", 8 << (k(i) % 9))))?;
                    // A malformed one at the end.
                    layout_too(c, &format!("{}-i8:7", join("-", &|i| format!("i{}:8", k(i)))))?;
                    layout_too(c, &format!("n{}:x", join(":", &|i| k(i).to_string())))?;
                    layout_too(c, &format!("ni:{}:0", join(":", &|i| k(i).to_string())))?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M10

const M10: u32 = mask::RECORDS | mask::TRIPLE | mask::COMDATS | mask::LAYOUT;

/// Things in a module, with contents that say which ones they are.
fn thing(k: usize, i: usize) -> Node {
    let t = |s: &str| text(&format!("{s}{i}"));
    match k {
        0 => R(2, t("triple")),
        1 => R(3, t("e-S64-P")),
        2 => R(4, t("nop\nret\n")),
        3 => R(5, t("section")),
        4 => R(6, t("library")),
        5 => R(11, t("collector")),
        6 => R(12, vec![i as u64 % 3, 2, 1 + i as u64 % 5]),
        7 => R(16, t("source")),
        8 => R(17, vec![1, 2, 3, 4, 5]),
        9 => R(60 + i as u64, t("unknown")),
        10 => R(13, vec![17]),
        11 => R(7, vec![0, 2, 0, 0, 0, 0, 0, 0]),
        12 => B(GROUPS, vec![R(3, vec![1, 0, 0, 18])]),
        13 => B(PARAMATTR, vec![]),
        14 => B(15, vec![R(1, vec![1, 2, 3]), R(2, text("triple"))]),
        15 => B(11, vec![R(1, vec![0])]),
        16 => B(40 + i as u64, vec![R(2, text("triple")), B(8, vec![R(1, vec![2])]), B(17, vec![R(1, vec![0])])]),
        17 => R(8, vec![0, 2, 0, 0, 1, 0, 0, 0, 0, 0]),
        18 => R(14, vec![0, 2, 1, 0, 0, 0]),
        19 => R(9, vec![0, 0, 0, 0]),
        20 => R(1 << 32 | 2, t("wide")),
        // Required.
        21 => R(1, vec![2]),
        22 => types(vec![R(21, vec![0, 1]), R(2, vec![])]),
        23 => vst(),
        _ => unreachable!(),
    }
}
const THINGS: usize = 21;

pub fn m10(c: &mut Ctx) {
    // The required ones in every order, with others anywhere between.
    let extras = c.q(3, 4);
    for required in permutations(3) {
        for first in 0..THINGS {
            for at in 0..=3 {
                c.case(
                    || {
                        format!(
                            "{:?} with {} at {at} and up to {} others",
                            required.iter().map(|k| thing(k + 21, 0)).map(|n| show(&[n])).collect::<Vec<_>>(),
                            show(&[thing(first, 0)]),
                            extras - 1
                        )
                    },
                    |c| {
                        fn grow(c: &Ctx, seq: &mut Vec<usize>, from: usize, n: usize) -> Result<(), String> {
                            let m: Vec<Node> = seq.iter().enumerate().map(|(i, k)| thing(*k, i)).collect();
                            c.state(seq);
                            go(c, &file(m, b"strtab"), M10)?;
                            if n == 0 {
                                return Ok(());
                            }
                            // Further ones are inserted behind the last one, so that each order comes up once.
                            for at in from..=seq.len() {
                                for k in 0..THINGS {
                                    seq.insert(at, k);
                                    grow(c, seq, at + 1, n - 1)?;
                                    seq.remove(at);
                                }
                            }
                            Ok(())
                        }
                        let mut seq: Vec<usize> = required.iter().map(|k| k + 21).collect();
                        seq.insert(at, first);
                        grow(c, &mut seq, at + 1, extras - 1)
                    },
                );
            }
        }
    }
    // Everything at once, and then anything repeated, left out, or swapped.
    let all: Vec<Node> = (0..24).map(|k| thing(k, k)).collect();
    for i in 0..all.len() {
        c.case(
            || format!("everything, with thing {i} repeated, left out or swapped"),
            |c| {
                go(c, &file(all.clone(), b"strtab"), M10)?;
                let mut m = all.clone();
                m.remove(i);
                go(c, &file(m.clone(), b"strtab"), M10)?;
                for k in 0..m.len() {
                    let mut n = m.clone();
                    n.remove(k);
                    go(c, &file(n, b"strtab"), M10)?;
                }
                for j in 0..=all.len() {
                    let mut m = all.clone();
                    m.insert(j, all[i].clone());
                    go(c, &file(m.clone(), b"strtab"), M10)?;
                    m[j] = thing(i, 30);
                    go(c, &file(m, b"strtab"), M10)?;
                    if j < all.len() {
                        let mut m = all.clone();
                        m.swap(i, j);
                        go(c, &file(m, b"strtab"), M10)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "every subset of the required parts, each repeated up to twice".into(),
        |c| {
            for s in sequences(3, 5) {
                let m: Vec<Node> = s.iter().map(|k| thing(k + 21, 0)).collect();
                go(c, &file(m.clone(), b"strtab"), M10)?;
                // Within another block, they don't count.
                for k in 0..m.len() {
                    let mut n = m.clone();
                    n[k] = B(50, vec![n[k].clone()]);
                    go(c, &file(n, b"strtab"), M10)?;
                }
            }
            Ok(())
        },
    );
    // Assembly.
    let n = c.q(8, 10);
    for (i, s) in sequences(4, n).chunks(3000).enumerate() {
        c.case(
            || format!("assembly of up to {n} characters, part {i}"),
            |c| {
                for s in s {
                    let t: String = s.iter().map(|k| ['a', '\n', '\r', 'é'][*k]).collect();
                    go(c, &plain(vec![R(4, text(&t))]), M10)?;
                }
                Ok(())
            },
        );
    }
    odd_places(c, &[3, 4, 5, 6, 7], M10);
    for place in 0..4 {
        c.case(
            || format!("lines of assembly with every two characters at place {place}"),
            |c| {
                for a in 0..128u8 {
                    let mut t = vec![];
                    for b in (0..128).chain([9, 10, 13, 32]) {
                        t.extend(match place {
                            0 => vec![a, b, b'x', b'1'],
                            1 => vec![b'x', b'1', a, b],
                            2 => vec![b'x', a, b, b'1'],
                            _ => vec![a, b],
                        });
                        t.push(b'\n');
                        // Also as the last line.
                        let short = t[t.len() - t.len().min(9)..].to_vec();
                        go(c, &plain(vec![R(4, bytes(&short))]), M10)?;
                        go(c, &plain(vec![R(4, bytes(&short[..short.len() - 1]))]), M10)?;
                    }
                    go(c, &plain(vec![R(4, bytes(&t))]), M10)?;
                    t.pop();
                    go(c, &plain(vec![R(4, bytes(&t))]), M10)?;
                }
                Ok(())
            },
        );
    }
    for part in 0..c.q(8, 0x110) {
        let size = if c.thorough() { 0x1000 } else { 0x2000 };
        c.case(
            || format!("lines of assembly with every character from {:x} on", part * size),
            |c| {
                for ch in (part * size..(part + 1) * size).filter_map(char::from_u32) {
                    go(c, &plain(vec![R(4, text(&format!("{ch}a{ch}b{ch}\n{ch}\n{ch}{ch}\nc{ch}")))]), M10)?;
                }
                Ok(())
            },
        );
    }
    c.case(
        || "lists of texts".into(),
        |c| {
            for n in 0..c.q(40, 200) {
                for code in [5, 6, 11] {
                    let v: Vec<Node> = (0..n).map(|i| R(code, text(&format!("text {}", i * 7 % 5)))).collect();
                    go(c, &plain(v.clone()), M10)?;
                    // One malformed text spoils it all.
                    for (k, bad) in [(0, vec![97, 256]), (n / 2, vec![97, 0x80]), (n, vec![0xff, 97, u64::MAX])] {
                        let mut v = v.clone();
                        v.insert(k, R(code, bad));
                        go(c, &plain(v), M10)?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "versions".into(),
        |c| {
            for v in (0..300).chain(boundary_values()) {
                for f in [vec![v], vec![v, 7], vec![v, v, v]] {
                    let mut m = vec![R(1, f.clone()), no_types(), vst()];
                    go(c, &file(m.clone(), b"strtab"), M10)?;
                    m.push(R(1, f));
                    go(c, &file(m, b"strtab"), M10)?;
                }
            }
            go(c, &file(vec![R(1, vec![]), no_types(), vst()], b"strtab"), M10)
        },
    );
    // Everything else is the same in all of them.
    for v in (0..c.q(6, 20)).chain([255, 256, u32::MAX as u64, 1 << 32, u64::MAX]) {
        c.case(
            || format!("version {v}"),
            |c| {
                let with = |m: Vec<Node>| file(m.into_iter().map(|n| if n == thing(21, 0) { R(1, vec![v]) } else { n }).collect(), b"strtab");
                let all: Vec<Node> = (0..21).map(|k| thing(k, k)).chain((21..24).map(|k| thing(k, 0))).collect();
                let old: Vec<Node> = all.iter().enumerate().filter(|(k, _)| ![6, 17, 18].contains(k)).map(|(_, n)| n.clone()).collect();
                go(c, &with(all.clone()), M10)?;
                go(c, &with(old.clone()), M10)?;
                for i in 0..old.len() {
                    let mut m = old.clone();
                    m.remove(i);
                    go(c, &with(m), M10)?;
                }
                for i in 0..all.len() {
                    let mut m = all.clone();
                    m.remove(i);
                    go(c, &with(m), M10)?;
                    for j in 0..all.len() {
                        let mut m = all[21..].to_vec();
                        m.insert((i + j) % 4, all[i].clone());
                        m.insert(j % 5, all[j].clone());
                        go(c, &with(m), M10)?;
                    }
                }
                for code in [2, 3, 4, 5, 6, 11, 16] {
                    for n in 0..c.q(12, 60) {
                        for t in [long_text(n), vec![10; n as usize], vec![200; n as usize]] {
                            let mut m = all[21..].to_vec();
                            m.push(R(code, t.clone()));
                            go(c, &with(m.clone()), M10)?;
                            m.insert(0, R(code, t));
                            go(c, &with(m), M10)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "unknown records and blocks".into(),
        |c| {
            for code in (0..c.q(5000, 70_000)).chain(boundary_values()) {
                if !(1..=20).contains(&code) {
                    let m = vec![R(code, text("xx")), R(1, vec![2]), R(code, vec![]), no_types(), vst(), R(2, text("triple")), R(code, vec![1])];
                    go(c, &file(m, b"strtab"), M10)?;
                }
                // Codes that LLVM knows, but for something that isn't mapped.
                if [7, 9, 10, 13, 15, 16, 17, 18, 19, 20].contains(&code) {
                    for f in [text("xx"), vec![], vec![0], vec![1], vec![0, 4, 0], vec![0, 4, 1, 0, 0, 0, 0, 0, 0, 0], vec![u64::MAX; 12]] {
                        let m = vec![R(code, f.clone()), R(1, vec![2]), R(code, f.clone()), no_types(), vst(), R(2, text("triple")), R(code, f.clone())];
                        go(c, &file(m, b"strtab"), M10)?;
                    }
                }
                if ![0, 9, 10, 12, 14, 17].contains(&code) {
                    let m = vec![R(1, vec![2]), B(code, vec![R(2, text("inner")), vst()]), no_types(), vst(), R(2, text("triple")), B(code, vec![])];
                    go(c, &file(m, b"strtab"), M10)?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "several modules".into(),
        |c| {
            for s in sequences(THINGS, 2) {
                let mut d = vec![];
                for (i, k) in s.iter().enumerate() {
                    d.extend(file((21..24).map(|k| thing(k, 0)).chain([thing(*k, i)]).collect(), b"strtab"));
                }
                go(c, &d, M10)?;
            }
            Ok(())
        },
    );
    single(c, &[4, 5, 6, 7]);
    for n in many(c) {
        c.case(
            || format!("{n} texts, lines and unknown records"),
            |c| {
                for code in [5, 6, 11] {
                    let mut v: Vec<Node> = (0..n).map(|i| R(code, text(&format!("text {i}")))).collect();
                    go(c, &plain(v.clone()), M10)?;
                    v.push(R(code, vec![97, 0x80]));
                    go(c, &plain(v), M10)?;
                }
                for line in ["\n", "a\n", "\r\n", "x\ny", " \n"] {
                    go(c, &plain(vec![R(4, text(&line.repeat(n as usize)))]), M10)?;
                }
                let mut v: Vec<Node> = (0..n).map(|i| R(30 + i, vec![i])).collect();
                v.push(R(4, text("as\nm")));
                go(c, &plain(v), M10)?;
                let mut v: Vec<Node> = (0..n).map(|i| B(50 + i % 9, vec![R(4, text("nn"))])).collect();
                v.push(R(4, text("as\nm")));
                go(c, &plain(v), M10)
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M11 and M12

/// Documents that contain everything.
fn documents() -> Vec<(&'static str, Doc)> {
    let mut full = rich(
        2,
        2,
        1,
        vec![
            R(2, text("x86_64-unknown-linux-gnu")),
            R(3, text("e-m:e-p270:32:32-i64:64-f80:128-n8:16:32:64-S128-Fi8-ni:1-a:0:64-v64:64")),
            R(4, text("nop\nret")),
            R(6, text("libm")),
            R(12, vec![0, 4, 3]),
            R(8, vec![0, 4, 3, 8, 1, 3, 1, 5, 1, 1, 1, 1, 0, 2]),
            R(8, vec![4, 3, 1, 0, 0, 0, 0, 0, 0, 0]),
            R(14, vec![7, 3, 2, 0, 1, 3, 1, 2, 3, 1, 1]),
            B(15, vec![R(1, vec![1, 2, 3])]),
        ],
        2,
    );
    full.insert(2, symtab(b"symbols"));
    let many_types = typed(
        types(vec![
            R(2, vec![]),
            R(7, vec![8]),
            R(8, vec![1, 0]),
            R(19, text("node")),
            R(20, vec![0, 2, 1, 5]),
            R(11, vec![4, 3]),
            R(12, vec![4, 1]),
            R(21, vec![0, 0, 2, 2]),
            R(19, text("opaque")),
            R(6, vec![0]),
            R(18, vec![1, 5, 1]),
            R(25, vec![0]),
            R(12, vec![2, 9, 1]),
            R(16, vec![]),
        ]),
        vec![],
        b"ab",
    );
    let attributes = attributed(
        vec![
            R(3, [&[1, 0xffff_ffff, 0, 18][..], &[3], &text("key"), &[0, 4], &text("k"), &[0], &text("v"), &[0]].concat()),
            R(3, vec![2, 0, 1, 41, 8, 1, 1, 16, 0, 34]),
            R(3, vec![3, 1, 1, 51, (1 << 32) + 2, 1, 74, 1 << 32, 1, 33, 1]),
        ],
        vec![R(2, vec![1, 2]), R(2, vec![3, 1])],
    );
    let mut two = rich(1, 1, 0, vec![function(0, 4)], 2);
    two.extend(plain(vec![R(2, text("triple")), R(5, text(".text"))]));
    let shared = vec![ident(), plain(vec![])[1].clone(), ident(), plain(vec![R(4, text("a\nb"))])[1].clone(), symtab(b"yy"), strtab(b"xx")];
    vec![("everything", full), ("types", many_types), ("attributes", attributes), ("two modules", two), ("shared tables", shared), ("a minimal module", plain(vec![]))]
}

/// Map the bytes, with memory in proportion to the input.
fn maps(c: &Ctx, b: &[u8]) {
    maps_within(c, 1 << 20, b)
}

fn maps_within(c: &Ctx, base: usize, b: &[u8]) {
    c.step();
    c.transitions(1);
    let r = alloc::limited(base + 256 * b.len(), || match Bitcode::try_from(b) {
        Ok(bc) => Ok((bc.modules.len(), bc.modules.iter().map(|m| format!("{:?}", m.identification).len()).sum::<usize>())),
        Err(e) => {
            show_error(&e);
            Err(format!("{e:?}").chars().take(40).collect::<String>())
        }
    });
    c.state(&r);
}

/// An error and what caused it, as they are shown.
fn show_error(e: &dyn std::error::Error) {
    let mut e = Some(e);
    while let Some(x) = e {
        crate::logging::shown(format_args!("{x}"));
        e = x.source();
    }
}

/// Map the bytes without and with everything logged, and show the result.
fn maps_logged(c: &Ctx, b: &[u8]) {
    maps(c, b);
    let _on = crate::logging::Logged::on();
    c.transitions(1);
    match Bitcode::try_from(b) {
        Ok(bc) => crate::logging::shown(format_args!("{bc:?}")),
        Err(e) => show_error(&e),
    }
}

/// Every record of a document, and what puts another one in its place.
fn each_record(d: &[Node], visit: &mut dyn FnMut(u64, &[u64], &dyn Fn(Node) -> Doc) -> Result<(), String>) -> Result<(), String> {
    fn level(d: &[Node], rebuild: &dyn Fn(Vec<Node>) -> Doc, visit: &mut dyn FnMut(u64, &[u64], &dyn Fn(Node) -> Doc) -> Result<(), String>) -> Result<(), String> {
        for i in 0..d.len() {
            let set = |n: Node| {
                let mut v = d.to_vec();
                v[i] = n;
                rebuild(v)
            };
            match &d[i] {
                B(id, inner) => level(inner, &|v| set(B(*id, v)), visit)?,
                R(code, f) => visit(*code, f, &set)?,
            }
        }
        Ok(())
    }
    level(d, &|v| v, visit)
}

/// All single changes to the structure of a document.
fn mutations(d: &[Node], values: &[u64], visit: &mut dyn FnMut(&[Node]) -> Result<(), String>) -> Result<(), String> {
    // Changes at one level, with what's around it rebuilt by `rebuild`.
    fn level(d: &[Node], values: &[u64], rebuild: &dyn Fn(Vec<Node>) -> Doc, visit: &mut dyn FnMut(&[Node]) -> Result<(), String>) -> Result<(), String> {
        for i in 0..d.len() {
            let set = |n: Node| {
                let mut v = d.to_vec();
                v[i] = n;
                rebuild(v)
            };
            let mut v = d.to_vec();
            v.remove(i);
            visit(&rebuild(v))?;
            for j in 0..d.len() {
                let mut v = d.to_vec();
                v.insert(j, d[i].clone());
                visit(&rebuild(v))?;
                if j > i {
                    let mut v = d.to_vec();
                    v.swap(i, j);
                    visit(&rebuild(v))?;
                }
            }
            visit(&set(B(60, vec![d[i].clone()])))?;
            match &d[i] {
                B(id, inner) => {
                    let id = *id;
                    for new in (0..30).chain(values.iter().copied()) {
                        visit(&set(B(new, inner.clone())))?;
                    }
                    visit(&set(B(id, vec![])))?;
                    visit(&set(B(id, vec![d[i].clone()])))?;
                    level(inner, values, &|v| set(B(id, v)), visit)?;
                }
                R(code, f) => {
                    for new in (0..64).chain(values.iter().copied()) {
                        visit(&set(R(new, f.clone())))?;
                    }
                    for n in 0..f.len() {
                        visit(&set(R(*code, f[..n].to_vec())))?;
                        visit(&set(R(*code, f[n..].to_vec())))?;
                        for new in (0..20).chain(values.iter().copied()) {
                            let mut f = f.clone();
                            f[n] = new;
                            visit(&set(R(*code, f)))?;
                        }
                    }
                    for n in 1..6 {
                        let mut f = f.clone();
                        f.extend(vec![n; n as usize]);
                        visit(&set(R(*code, f)))?;
                    }
                }
            }
        }
        Ok(())
    }
    level(d, values, &|v| v, visit)
}

pub fn m11(c: &mut Ctx) {
    let few = [127, 128, 255, 256, (1 << 23) - 1, 1 << 23, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    for (name, d) in documents() {
        for style in STYLES {
            let b = encode(&d, &Enc { width: 4, style });
            // The bits are split over some cases.
            for part in 0..8 {
                c.case(
                    || format!("{name} as {style:?}: every bit flipped, every byte replaced, part {part} of 8"),
                    |c| {
                        c.trace();
                        for i in (part..b.len()).step_by(8) {
                            for bit in 0..8 {
                                let mut x = b.clone();
                                x[i] ^= 1 << bit;
                                maps_logged(c, &x);
                                // And another one behind it.
                                for d in 1..c.q(12, 64) {
                                    let at = i * 8 + bit + d;
                                    if at < x.len() * 8 {
                                        let mut y = x.clone();
                                        y[at / 8] ^= 1 << (at % 8);
                                        maps(c, &y);
                                    }
                                }
                            }
                            for v in 0..=255 {
                                let mut x = b.clone();
                                x[i] = v;
                                maps(c, &x);
                            }
                        }
                        Ok(())
                    },
                );
            }
            c.case(
                || format!("{name} as {style:?}: every cut, every word replaced, removed, doubled and swapped"),
                |c| {
                    c.trace();
                    for n in 0..b.len() {
                        maps_logged(c, &b[..n]);
                        maps(c, &b[n..]);
                    }
                    for w in 0..b.len() / 4 {
                        for v in few.iter().map(|v| *v as u32).chain([0, 1, 2, 3, 4, 8, 16, 64, 1 << 16, 1 << 24]) {
                            let mut x = b.clone();
                            x[w * 4..w * 4 + 4].copy_from_slice(&v.to_le_bytes());
                            maps(c, &x);
                        }
                        let mut x = b.clone();
                        x.drain(w * 4..w * 4 + 4);
                        maps(c, &x);
                        for k in 0..b.len() / 4 {
                            let mut x = b.clone();
                            let word: Vec<u8> = b[w * 4..w * 4 + 4].to_vec();
                            x.splice(k * 4..k * 4, word);
                            maps(c, &x);
                            let mut x = b.clone();
                            for i in 0..4 {
                                x.swap(w * 4 + i, k * 4 + i);
                            }
                            maps(c, &x);
                        }
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("{name}: every change to the structure"),
            |c| {
                let values = c.q(few.to_vec(), boundary_values());
                c.trace();
                mutations(&d, &values, &mut |d| {
                    maps_logged(c, &encode(d, &PLAIN));
                    Ok(())
                })
            },
        );
    }
    // Texts, everywhere, that can't be cut at every byte.
    for (name, d) in documents() {
        for ch in ["é", "€", "😀", "\u{80}", "\u{7ff}", "\u{800}", "\u{10ffff}"] {
            c.case(
                || format!("{name}: texts with {ch:?} everywhere"),
                |c| {
                    c.trace();
                    each_record(&d, &mut |code, f, set| {
                        for n in 0..=f.len().min(c.q(6, 30)) {
                            for at in (0..c.q(70, 300)).chain([100, 127, 128, 255, 256, 511, 512]) {
                                let t = "x-64:a".repeat(90)[..at].to_string() + ch;
                                maps(c, &encode(&set(R(code, [&f[..n], &text(&t)].concat())), &PLAIN));
                            }
                            maps(c, &encode(&set(R(code, [&f[..n], &text(&ch.repeat(40))].concat())), &PLAIN));
                        }
                        for n in 0..=f.len() {
                            for k in 1..4 {
                                maps_logged(c, &encode(&set(R(code, [&f[..n], &text(&ch.repeat(k)), &f[n..]].concat())), &PLAIN));
                                if n < f.len() {
                                    maps_logged(c, &encode(&set(R(code, [&f[..n], &text(&ch.repeat(k)), &f[n + 1..]].concat())), &PLAIN));
                                }
                            }
                        }
                        Ok(())
                    })
                },
            );
        }
    }
    // Nested blocks.
    for n in [1, 2, 5, 10, 50, 100, 120, 126, 127, 128, 129, 130, 131, 200, 500, 1000, 5000, 20_000, 100_000] {
        c.case(
            || format!("{n} nested blocks"),
            |c| {
                c.trace();
                for id in [8, 12, 13, 17, 23, 40] {
                    for closed in [true, false] {
                        for inside in [true, false] {
                            let mut w = crate::stream::Writer::new();
                            crate::model::put(&mut w, &[ident()], &PLAIN);
                            if inside {
                                w.enter(MODULE, 3);
                                crate::model::put(&mut w, &[R(1, vec![2]), no_types(), vst()], &PLAIN);
                            }
                            // (Writing the lengths of deeply nested blocks is what takes long.)
                            for _ in 0..n {
                                w.enter(id, 3);
                            }
                            if closed {
                                w.close();
                                crate::model::put(&mut w, &[strtab(b"xx")], &PLAIN);
                            }
                            w.w.align32();
                            maps(c, &w.w.bytes);
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Function blocks.
    for (i, terminated) in [(0, false), (1, true)] {
        for code in 0..c.q(72, 300) {
            c.case(
                || format!("function blocks with records of code {code}, variant {i}"),
                |c| {
                    c.trace();
                    for n in 0..12usize {
                        for fill in [0, 1, 2, 3, 7, 255, 1 << 31, 1 << 32, u64::MAX] {
                            for first in [0, 1, 2, u64::MAX] {
                                let mut f = vec![fill; n];
                                if n > 0 {
                                    f[0] = first;
                                }
                                let mut body = vec![R(1, vec![first]), R(code, f.clone())];
                                if terminated {
                                    body.push(R(10, vec![]));
                                    body.push(B(14, vec![R(2, vec![0, 97])]));
                                    body.push(B(11, vec![R(4, vec![4])]));
                                }
                                for decl in [0, 1] {
                                    let fun = R(8, vec![0, 2, 1, 0, decl, 0, 0, 0, 0, 0]);
                                    maps(c, &encode(&typed(fn_types(), vec![fun, B(12, body.clone())], b"xx"), &PLAIN));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Every record of every block, of every length.
    let homes: [(&str, fn(Vec<Node>) -> Doc); 7] = [
        ("identification", |v| vec![B(IDENT, v), plain(vec![])[1].clone(), strtab(b"xx")]),
        ("module", |v| rich(2, 2, 1, v, 2)),
        ("types", |v| typed(types(v), vec![], b"xx")),
        ("attribute groups", |v| attributed(v, vec![])),
        ("attribute lists", |v| attributed(vec![R(3, vec![1, 0, 0, 18])], v)),
        ("string table", |v| vec![ident(), plain(vec![])[1].clone(), B(STRTAB, v)]),
        ("symbol table", |v| plain(vec![B(VST, v)])),
    ];
    for (name, home) in homes {
        for code in 0..c.q(32, 80) {
            c.case(
                || format!("{name}: records of code {code}"),
                |c| {
                    c.trace();
                    for n in 0..c.q(20, 40usize) {
                        for fill in (0..5).chain(few) {
                            let mut f = vec![fill; n];
                            maps(c, &encode(&home(vec![R(code, f.clone())]), &PLAIN));
                            for i in 0..n {
                                for v in [0, 1, 2, 97] {
                                    f[i] = v;
                                    maps(c, &encode(&home(vec![R(code, f.clone())]), &PLAIN));
                                    f[i] = fill;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Types that contain much. (Each entry has its own copy of what's in it, for up to 256 levels.)
    for (_, u) in uses().iter().enumerate() {
        c.case(
            || format!("deep types: {}", u.0),
            |c| {
                c.trace();
                let twice = u.1(9).iter().any(|n| matches!(n, R(_, f) if f.iter().filter(|x| **x == 9).count() > 1));
                for n in [10, 100, 200, 250, 255, 256, 257, 258, 300, 1000, 10_000, 100_000] {
                    if twice && n > 10 {
                        continue;
                    }
                    let mut v = vec![R(7, vec![8])];
                    for i in 0..n {
                        v.extend(u.1(i));
                    }
                    maps_within(c, 32 << 20, &encode(&typed(types(v), vec![], b"xx"), &PLAIN));
                    let mut v: Vec<Node> = (0..n).flat_map(|i| u.1(i + 1)).collect();
                    v.push(R(7, vec![8]));
                    maps_within(c, 32 << 20, &encode(&typed(types(v), vec![], b"xx"), &PLAIN));
                    // A cycle.
                    let v: Vec<Node> = (0..n).flat_map(|i| u.1((i + 1) % n)).collect();
                    maps_within(c, 32 << 20, &encode(&typed(types(v), vec![], b"xx"), &PLAIN));
                }
                Ok(())
            },
        );
    }
    c.case(
        || "counts that are only claimed".into(),
        |c| {
            c.trace();
            for v in boundary_values() {
                maps(c, &encode(&typed(B(TYPES, vec![R(1, vec![v])]), vec![], b"xx"), &PLAIN));
                maps(c, &encode(&typed(B(TYPES, vec![R(1, vec![v]), R(2, vec![])]), vec![], b"xx"), &PLAIN));
                maps(c, &encode(&plain(vec![B(VST, vec![R(1, vec![v])]), R(13, vec![v])]), &PLAIN));
                maps(c, &encode(&typed(types(vec![R(7, vec![8]), R(11, vec![v, 0])]), vec![], b"xx"), &PLAIN));
                maps(c, &encode(&typed(types(vec![R(7, vec![8]), R(12, vec![v, 0])]), vec![], b"xx"), &PLAIN));
                maps(c, &encode(&typed(types(vec![R(7, vec![8]), R(12, vec![v, 0, 1])]), vec![], b"xx"), &PLAIN));
            }
            Ok(())
        },
    );
    // The fields of each record, in pairs.
    for (name, home, code, base) in [
        ("function", 1, 8, vec![0, 4, 3, 8, 1, 3, 1, 5, 1, 1, 1, 1, 0, 2]),
        ("alias", 1, 14, vec![0, 4, 2, 0, 1, 3, 1, 2, 3, 1, 1]),
        ("COMDAT", 1, 12, vec![0, 4, 3]),
        ("attribute group", 3, 3, vec![1, 0, 1, 41, 8, 3, 97, 0, 4, 98, 0, 99, 0]),
        ("attribute group", 3, 3, vec![1, 0, 1, 51, 8, 1, 74, 8, 1, 33, 1, 0, 18]),
        ("struct", 2, 18, vec![0, 1, 2, 3]),
        ("function type", 2, 21, vec![0, 1, 2, 3]),
    ] {
        for i in 0..base.len() {
            c.case(
                || format!("{name} {base:?}: field {i} with every other one"),
                |c| {
                    c.trace();
                    for j in i..base.len() {
                        for x in (0..5).chain(few) {
                            for y in (0..5).chain(few) {
                                let mut f = base.clone();
                                f[i] = x;
                                f[j] = y;
                                let mut v = vec![R(code, f)];
                                if home == 2 {
                                    v.extend([R(7, vec![8]), R(2, vec![]), R(25, vec![0])]);
                                }
                                maps(c, &encode(&homes[home].1(v), &PLAIN));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Types whose size is exponential in the size of the table.
    c.case(
        || "40 structs, each of which has the previous one twice".into(),
        |c| {
            let mut v = vec![R(7, vec![8])];
            v.extend((0..40).map(|i| R(18, vec![0, i, i])));
            maps(c, &encode(&typed(types(v), vec![], b"xx"), &PLAIN));
            Ok(())
        },
    );
}

type Mapped = Result<Vec<Mod>, String>;

fn alike(want: &Mapped, got: &Mapped, how: &dyn Fn() -> String) -> Result<(), String> {
    match (want, got) {
        (Ok(w), Ok(g)) if w == g && format!("{w:?}") == format!("{g:?}") => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{}: expected {want:?}, got {got:?}", how())),
    }
}

fn same_as(want: &Mapped, b: &[u8], how: &dyn Fn() -> String) -> Result<(), String> {
    alike(want, &observe(b), how)
}

pub fn m12(c: &mut Ctx) {
    let mut docs = documents();
    // Some that are rejected.
    docs.push(("a malformed layout", plain(vec![R(3, text("e-x"))])));
    docs.push(("text that isn't UTF-8", plain(vec![R(2, vec![0x80, 0x80])])));
    docs.push(("a wide character", plain(vec![R(2, vec![97, 300])])));
    docs.push(("a wrong count", typed(B(TYPES, vec![R(1, vec![5])]), vec![], b"xx")));
    docs.push(("wide fields", rich(1, 1, 1, vec![R(12, vec![1 << 40, 1, 1])], 2)));
    docs.push(("an unknown function type", rich(1, 1, 1, vec![R(8, vec![0, 4, 99, 0, 0, 0, 0, 0, 0, 0])], 2)));
    docs.push(("no tables", vec![ident(), plain(vec![])[1].clone()]));
    for (name, d) in &docs {
        let want = observe(&encode(d, &PLAIN));
        let rate = |c: &Ctx| {
            c.step();
            c.trace();
            c.transitions(1);
        };
        for style in STYLES {
            c.case(
                || format!("{name} as {style:?} with every width, raw and wrapped"),
                |c| {
                    for width in 2..=32 {
                        let b = encode(d, &Enc { width, style });
                        let how = || format!("{style:?}, {width} bits, {}", show(d));
                        rate(c);
                        same_as(&want, &b, &how)?;
                        for (between, behind) in [(0, 0), (4, 0), (0, 4), (16, 12), (64, 1), (0, 3)] {
                            let (x, y) = (vec![0xa5; between], vec![0x5a; behind]);
                            let w = wrap(0, 20 + between as u32, b.len() as u32, 7, &x, &b, &y);
                            rate(c);
                            same_as(&want, &w, &|| format!("wrapped {between} {behind}, {}", how()))?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // A style for each record.
        let n = count_records(d);
        const PICK: [Style; 4] = [Style::Plain, Style::Array6, Style::FixedArray, Style::Scalars];
        for style in PICK.into_iter().chain([Style::Char6, Style::Blob, Style::Head, Style::Literals]) {
            c.case(
                || format!("{name} with one or two records as {style:?}, or all but one or two"),
                |c| {
                    for rest in [Style::Plain, Style::Array6] {
                        for i in 0..n {
                            for j in i..n {
                                let mut s = vec![rest; n];
                                s[i] = style;
                                s[j] = style;
                                for width in [3, 5] {
                                    rate(c);
                                    same_as(&want, &encode_with(d, width, &s), &|| format!("{width} bits, {s:?}, {}", show(d)))?;
                                }
                                let mut s = vec![style; n];
                                s[i] = rest;
                                s[j] = rest;
                                rate(c);
                                same_as(&want, &encode_with(d, 4, &s), &|| format!("{s:?}, {}", show(d)))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        // An opened bitstream instead of bytes.
        c.case(
            || format!("{name} handed over as an opened bitstream"),
            |c| {
                for style in STYLES {
                    let b = encode(d, &Enc { width: 4, style });
                    let w = wrap(0, 24, b.len() as u32, 7, &[1; 4], &b, &[2; 8]);
                    for (x, how) in [(&b, "raw"), (&w, "wrapped")] {
                        let how = |by: &str| format!("{style:?}, {how}, {by}, {}", show(d));
                        rate(c);
                        let got = observe_with(|| Bitcode::try_from(Bitstream::from(x.clone())?.1));
                        alike(&want, &got, &|| how("Bitstream::from(Vec)"))?;
                        rate(c);
                        let got = observe_with(|| Bitcode::try_from(Bitstream::from(&x[..])?.1));
                        alike(&want, &got, &|| how("Bitstream::from(slice)"))?;
                    }
                    rate(c);
                    let got = observe_with(|| Bitcode::try_from(Bitstream::from_raw(&b)?));
                    alike(&want, &got, &|| format!("{style:?}, from_raw, {}", show(d)))?;
                    rate(c);
                    let got = observe_with(|| Bitcode::try_from(Bitstream::from_wrapped(&w)?.1));
                    alike(&want, &got, &|| format!("{style:?}, from_wrapped, {}", show(d)))?;
                }
                Ok(())
            },
        );
        // Things that are unknown, everywhere.
        c.case(
            || format!("{name} with unknown records and blocks anywhere"),
            |c| {
                let mut noise = vec![B(40, vec![]), B(99, vec![R(1, vec![5]), B(8, vec![]), R(2, text("xx"))]), B(1 << 31, vec![R(0, vec![])])];
                noise.extend([22, 255, 300, (1 << 32) + 1, (1 << 32) + 8, u64::MAX].map(|code| R(code, vec![1, 2, 3])));
                for n in &noise {
                    let mut todo = vec![];
                    places(d, &mut vec![], &mut todo, matches!(n, R(..)));
                    for at in todo {
                        let mut x = d.clone();
                        insert(&mut x, &at, n.clone());
                        for e in [PLAIN, enc(1), enc(8), enc(9)] {
                            rate(c);
                            same_as(&want, &encode(&x, &e), &|| format!("{:?}, {}", e.style, show(&x)))?;
                        }
                    }
                }
                Ok(())
            },
        );
        // Names for blocks and records, which mean nothing to the mapper.
        c.case(
            || format!("{name} with names in BLOCKINFO"),
            |c| {
                use crate::stream::{AOp, Writer};
                // Names of the blocks with the given ID, at the start of the file, or of its modules.
                let names = |w: &mut Writer, bid: u64, code: u64, at: usize| {
                    let width = if code % 2 == 0 { 2 } else { 5 };
                    w.enter(0, width);
                    w.setbid(bid);
                    w.unabbrev(2, &text("A_BLOCK")[..code as usize % 8]);
                    if at == 2 {
                        w.def(&[AOp::Lit(1), AOp::Fixed(3)]);
                    }
                    let mut f = vec![code];
                    f.extend(&text("A_RECORD")[..bid as usize % 9]);
                    w.unabbrev(3, &f);
                    w.unabbrev(3, &[code ^ 1, 97, 98]);
                    w.end();
                };
                fn emit(w: &mut Writer, d: &[Node], f: &dyn Fn(&mut Writer)) {
                    for n in d {
                        match n {
                            B(id, c) => {
                                w.enter(*id, 4);
                                if *id == 8 {
                                    f(w);
                                }
                                emit(w, c, &|_| ());
                                w.end();
                            }
                            R(code, f) => w.unabbrev(*code, f),
                        }
                    }
                }
                let codes: Vec<u64> = (0..=c.q(130, 300)).chain([511, 512, 65536, 1 << 32, u64::MAX]).collect();
                for (i, &code) in codes.iter().enumerate() {
                    let bids: Vec<u64> = if i % 8 == 0 { (0..27).chain([40, 255, 1 << 20]).collect() } else { vec![8, 17, i as u64 % 27] };
                    for bid in bids {
                        for at in 0..3 {
                            let mut w = Writer::new();
                            if at == 0 {
                                names(&mut w, bid, code, at);
                            }
                            emit(&mut w, d, &|w| {
                                if at > 0 {
                                    names(w, bid, code, at)
                                }
                            });
                            rate(c);
                            same_as(&want, &w.done().0, &|| format!("names of {code} in {bid} at {at}, {}", show(d)))?;
                        }
                    }
                }
                Ok(())
            },
        );
        // Abbreviation IDs of all sizes.
        c.case(
            || format!("{name} with other definitions before the ones that are used"),
            |c| {
                use crate::stream::{array, AOp, Writer};
                fn emit(w: &mut Writer, d: &[Node], (others, late): (usize, bool)) {
                    let mut id = None;
                    let general = vec![AOp::Vbr(6), array(AOp::Vbr(6))];
                    if !w.scopes.is_empty() {
                        if late {
                            id = Some(w.def(&general));
                        }
                        for k in 0..others {
                            w.def(&[AOp::Lit(k as u64), AOp::Fixed(5)]);
                        }
                        if !late {
                            id = Some(w.def(&general));
                        }
                    }
                    for (k, n) in d.iter().enumerate() {
                        match n {
                            B(id, c) => {
                                w.enter(*id, 12);
                                emit(w, c, (others, late));
                                w.end();
                            }
                            R(code, f) if late && k % 2 == 1 => {
                                let id = w.def(&general);
                                w.abbrev(id, *code, f)
                            }
                            R(code, f) => w.abbrev(id.unwrap(), *code, f),
                        }
                    }
                }
                for others in (0..70).chain([124, 125, 252, 253, 254, 1000]) {
                    for late in [false, true] {
                        let mut w = Writer::new();
                        emit(&mut w, d, (others, late));
                        rate(c);
                        same_as(&want, &w.done().0, &|| format!("{others} other definitions {late}, {}", show(d)))?;
                    }
                }
                Ok(())
            },
        );
        // Unused definitions and BLOCKINFO blocks, everywhere.
        c.case(
            || format!("{name} with BLOCKINFO blocks and unused definitions anywhere"),
            |c| {
                use crate::stream::{array, AOp, Writer};
                let defs: [Vec<AOp>; 4] = [vec![AOp::Lit(1)], vec![AOp::Fixed(3), AOp::Vbr(6)], vec![AOp::Vbr(6), array(AOp::Char6)], vec![AOp::Lit(8), AOp::Blob]];
                for kind in 0..8 {
                    for at in 0..count_nodes(d) {
                        let mut w = Writer::new();
                        let mut i = 0;
                        fn emit(w: &mut Writer, d: &[Node], i: &mut usize, at: usize, f: &dyn Fn(&mut Writer)) {
                            for n in d {
                                if *i == at {
                                    f(w);
                                }
                                *i += 1;
                                match n {
                                    B(id, c) => {
                                        w.enter(*id, 4);
                                        emit(w, c, i, at, f);
                                        w.end();
                                    }
                                    R(code, f) => w.unabbrev(*code, f),
                                }
                            }
                        }
                        emit(&mut w, d, &mut i, at, &|w| {
                            let def = defs[kind % 4].clone();
                            if kind < 4 && !w.scopes.is_empty() {
                                w.def(&def);
                                w.def(&def);
                            } else {
                                w.blockinfo(2 + kind % 3, &[(8, vec![def.clone()]), (17, vec![def.clone(), def.clone()]), (40, vec![def])]);
                            }
                        });
                        rate(c);
                        same_as(&want, &w.done().0, &|| format!("{kind} at {at}, {}", show(d)))?;
                    }
                }
                Ok(())
            },
        );
    }
    // Documents with single changes, in different encodings: all the same, or all rejected.
    for (name, d) in documents() {
        let mut all = vec![];
        mutations(&d, &[255, 256, 1 << 32, u64::MAX], &mut |d| {
            all.push(());
            let _ = d;
            Ok(())
        })
        .unwrap();
        let parts = 24;
        for part in 0..parts {
            c.case(
                || format!("{name}: every change to the structure, part {part} of {parts}"),
                |c| {
                    let mut i = 0;
                    mutations(&d, &[255, 256, 1 << 32, u64::MAX], &mut |d| {
                        i += 1;
                        if i % parts != part || d.iter().any(|n| matches!(n, R(..))) || has_info(d) {
                            return Ok(());
                        }
                        let want = observe(&encode(d, &PLAIN));
                        let step = c.q(3, 1);
                        for k in (i / parts % step..10).step_by(step) {
                            let e = Enc { width: 3 + k % 3, style: STYLES[k] };
                            c.step();
                            c.trace();
                            c.transitions(1);
                            same_as(&want, &encode(d, &e), &|| format!("{e:?}, {}", show(d)))?;
                        }
                        Ok(())
                    })
                },
            );
        }
    }
    // Unknown blocks within unknown blocks.
    for depth in 1..=64usize {
        c.case(
            || format!("unknown blocks, {depth} deep"),
            |c| {
                for id in [40, 64, 1 << 20] {
                    let mut n = B(id, vec![R(2, text("no triple")), R(1, vec![77])]);
                    for k in 1..depth {
                        n = B(id + k as u64 % 3, vec![R(2, text("no triple")), n.clone(), R(4, text("no assembly"))]);
                    }
                    for (_, d) in documents().into_iter().take(1) {
                        for at in 0..3 {
                            let mut d = d.clone();
                            let B(_, inner) = &mut d[1] else { unreachable!() };
                            inner.insert(at * inner.len() / 2, n.clone());
                            for e in 0..c.q(3, 40) {
                                run(c, &d, &enc(e), LAX, mask::ALL)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// M13

/// Files with one module and all of its tables.
fn single_modules() -> Vec<(String, Doc)> {
    let mut v: Vec<(String, Doc)> = vec![];
    for (name, d) in documents() {
        if d.iter().filter(|n| matches!(n, B(MODULE, _))).count() == 1 {
            v.push((name.to_string(), d));
        }
    }
    // One thing each.
    for k in 0..THINGS {
        let mut m: Vec<Node> = [21, 22, 23].iter().map(|k| thing(*k, 0)).collect();
        m.push(thing(k, 1));
        v.push((format!("thing {k}"), file(m, format!("strtab {k}").as_bytes())));
    }
    // Each of the required ones missing.
    for k in [21, 22, 23] {
        v.push((format!("without {k}"), file([21, 22, 23].iter().filter(|x| **x != k).map(|k| thing(*k, 0)).collect(), b"table")));
    }
    // What needs something that only other modules have.
    let f = |section: u64, list: u64, gc: u64| R(8, vec![0, 4, 3, 8, 1, 3, list, 5, section, 1, gc, 1, 0, 2]);
    v.push(("a section of its own".into(), rich(0, 1, 0, vec![f(1, 0, 0)], 2)));
    v.push(("another section".into(), rich(0, 2, 0, vec![f(2, 0, 0)], 2)));
    v.push(("a section too many".into(), rich(0, 0, 0, vec![f(1, 0, 0)], 2)));
    v.push(("two sections too many".into(), rich(0, 1, 0, vec![f(3, 0, 0)], 2)));
    v.push(("a list of its own".into(), rich(1, 0, 0, vec![f(0, 1, 0)], 2)));
    v.push(("a list too many".into(), rich(0, 0, 0, vec![f(0, 1, 0)], 2)));
    v.push(("two lists too many".into(), rich(1, 0, 0, vec![f(0, 3, 0)], 2)));
    v.push(("a collector of its own".into(), rich(0, 0, 2, vec![f(0, 0, 2)], 2)));
    v.push(("a collector too many".into(), rich(0, 0, 0, vec![f(0, 0, 1)], 2)));
    v.push(("a missing type".into(), plain(vec![R(8, vec![0, 4, 3, 0, 1, 0, 0, 0, 0, 0])])));
    v.push(("a missing aliasee type".into(), plain(vec![R(14, vec![0, 4, 3, 0, 0, 0])])));
    v.push(("a missing group".into(), attributed(vec![R(3, vec![7, 1, 0, 18])], vec![R(2, vec![1])])));
    v.push(("a name in a longer table".into(), rich(0, 0, 0, vec![R(8, vec![9, 4, 3, 0, 1, 0, 0, 0, 0, 0])], 2)));
    v.push(("a pending struct name".into(), typed(types(vec![R(7, vec![8]), R(19, text("left over"))]), vec![], b"ab")));
    v.push(("an unnamed struct".into(), typed(types(vec![R(7, vec![8]), R(20, vec![0, 0])]), vec![], b"ab")));
    v.push(("a type of the previous table".into(), typed(B(TYPES, vec![R(1, vec![1]), R(8, vec![3, 0])]), vec![], b"ab")));
    v.push(("version 1".into(), rich(1, 1, 1, vec![], 1)));
    v.push(("version 1 with a function".into(), rich(1, 1, 1, vec![function(0, 4)], 1)));
    v.push(("version 0".into(), rich(1, 1, 1, vec![], 0)));
    v.push(("version 2 with functions".into(), rich(1, 1, 1, vec![function(4, 3), function(0, 4), alias(7, 3), comdat(0, 7)], 2)));
    v.push(("layouts".into(), plain(vec![R(3, text("E-p:16:16-p1:64:64-i64:64:128-n8-S8-A5-P1-G2-m:o-Fn16-ni:3:4"))])));
    v.push(("another layout".into(), plain(vec![R(3, text("e-p1:32:32-i64:32-v128:64-S256"))])));
    v.push(("a wrong layout".into(), plain(vec![R(3, text("e-x"))])));
    v.push(("identification without a producer".into(), vec![B(IDENT, vec![R(2, vec![0])]), plain(vec![])[1].clone(), strtab(b"ab")]));
    v.push(("identification without an epoch".into(), vec![B(IDENT, vec![R(1, text("P1"))]), plain(vec![])[1].clone(), strtab(b"ab")]));
    v.push(("another producer".into(), vec![B(IDENT, vec![R(1, text("Other")), R(2, vec![7])]), plain(vec![])[1].clone(), strtab(b"ab")]));
    v.push(("an empty table block".into(), vec![ident(), plain(vec![])[1].clone(), B(STRTAB, vec![])]));
    for (i, (_, d)) in v.iter_mut().enumerate() {
        if !d.iter().any(|n| matches!(n, B(SYMTAB, _))) {
            d.push(symtab(format!("symbols {i}").as_bytes()));
        }
    }
    v.push(("an empty symbol table block".into(), vec![ident(), plain(vec![])[1].clone(), strtab(b"xyz"), B(SYMTAB, vec![])]));
    v
}

/// The same, but for the lowest bit of the n-th number in it (a code or an operand).
fn nudged(d: &[Node], mut n: usize) -> Option<Doc> {
    fn find(d: &mut [Node], n: &mut usize) -> bool {
        for x in d {
            match x {
                B(_, c) => {
                    if find(c, n) {
                        return true;
                    }
                }
                R(code, fields) => match *n {
                    0 => {
                        *code ^= 1;
                        return true;
                    }
                    k if k <= fields.len() => {
                        fields[k - 1] ^= 1;
                        return true;
                    }
                    _ => *n -= fields.len() + 1,
                },
            }
        }
        false
    }
    let mut d = d.to_vec();
    find(&mut d, &mut n).then_some(d)
}

/// All of these, if all of them are mapped.
fn all_of(parts: &[&Mapped]) -> Mapped {
    let mut all = vec![];
    for p in parts {
        all.extend((*p).clone()?);
    }
    Ok(all)
}

pub fn m13(c: &mut Ctx) {
    let docs = single_modules();
    let own: Vec<Mapped> = docs.iter().map(|(_, d)| observe(&encode(d, &PLAIN))).collect();
    let rate = |c: &Ctx| {
        c.step();
        c.trace();
        c.transitions(1);
    };
    // Every ordered pair.
    for (i, (name, a)) in docs.iter().enumerate() {
        c.case(
            || format!("{name}, before and after every other module"),
            |c| {
                // On its own, as the reference has it.
                go(c, a, mask::ALL)?;
                for (j, (other, b)) in docs.iter().enumerate() {
                    c.state(&(i, j));
                    let want = all_of(&[&own[i], &own[j]]);
                    let both: Doc = a.iter().chain(b).cloned().collect();
                    let how = |e: &dyn std::fmt::Debug| format!("{name}, then {other}, {e:?}: {}", show(&both));
                    for style in STYLES {
                        let e = Enc { width: 3 + (i + j) % 3, style };
                        rate(c);
                        same_as(&want, &encode(&both, &e), &|| how(&e))?;
                    }
                    // Each written in its own way.
                    for (s, t) in [(Style::Plain, Style::Array6), (Style::Scalars, Style::Plain), (Style::Head, Style::InfoTop), (Style::Array6, Style::InfoModule)] {
                        let mut x = encode(a, &Enc { width: 4, style: s });
                        x.extend(&encode(b, &Enc { width: 6, style: t })[4..]);
                        rate(c);
                        same_as(&want, &x, &|| how(&(s, t)))?;
                    }
                    // Mapped one after the other.
                    for k in [i, j, i] {
                        rate(c);
                        same_as(&own[k], &encode(&docs[k].1, &PLAIN), &|| format!("{}, mapped again", docs[k].0))?;
                    }
                    // With the tables of the second.
                    let tables = |n: &&Node| !matches!(n, B(STRTAB | SYMTAB, _));
                    let bare: Doc = a.iter().filter(tables).cloned().collect();
                    let lent: Doc = bare.iter().chain(b.iter().filter(|n| !tables(n))).cloned().collect();
                    let mut shared = bare;
                    shared.extend(b.iter().cloned());
                    let want = all_of(&[&observe(&encode(&lent, &PLAIN)), &own[j]]);
                    rate(c);
                    same_as(&want, &encode(&shared, &PLAIN), &|| format!("{name} and {other} with shared tables: {}", show(&shared)))?;
                    go(c, &shared, mask::ALL)?;
                }
                Ok(())
            },
        );
    }
    // Modules that differ in a single number.
    for (name, a) in &docs {
        c.case(
            || format!("{name}, and everything that differs from it in one number"),
            |c| {
                let mut n = 0;
                while let Some(b) = nudged(a, n) {
                    n += 1;
                    c.state(&(name, n));
                    c.step();
                    for pair in [[a, &b], [&b, a]] {
                        let both: Doc = pair.into_iter().flatten().cloned().collect();
                        go(c, &both, mask::ALL)?;
                        for d in pair {
                            go(c, d, mask::ALL)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Every ordered triple.
    let some: Vec<usize> = (0..docs.len()).collect();
    for &i in &some {
        c.case(
            || format!("{}, with two other modules", docs[i].0),
            |c| {
                for &j in &some {
                    for &k in &some {
                        c.state(&(i, j, k));
                        let want = all_of(&[&own[i], &own[j], &own[k]]);
                        let all: Doc = [i, j, k].iter().flat_map(|i| docs[*i].1.clone()).collect();
                        rate(c);
                        same_as(&want, &encode(&all, &enc(i + j + k)), &|| show(&all))?;
                        // Every fourth one behind them.
                        if c.thorough() && want.is_ok() && (j + k) % 4 == 0 {
                            for l in (k % 3..docs.len()).step_by(3) {
                                c.state(&(i, j, k, l));
                                let want = all_of(&[&want, &own[l]]);
                                let all: Doc = [i, j, k, l].iter().flat_map(|i| docs[*i].1.clone()).collect();
                                rate(c);
                                same_as(&want, &encode(&all, &enc(i + j + k + l)), &|| show(&all))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Many modules.
    let good: Vec<usize> = (0..docs.len()).filter(|i| own[*i].is_ok()).collect();
    for n in (1..=c.q(40, 100)).chain([128, 255, 256, 257, 500, 1000]) {
        c.case(
            || format!("{n} modules"),
            |c| {
                let which: Vec<usize> = (0..n).map(|i| good[i * 7 % good.len()]).collect();
                let parts: Vec<&Mapped> = which.iter().map(|i| &own[*i]).collect();
                let all: Doc = which.iter().flat_map(|i| docs[*i].1.clone()).collect();
                for e in [PLAIN, enc(1), enc(9)] {
                    rate(c);
                    same_as(&all_of(&parts), &encode(&all, &e), &|| format!("{n} modules, {:?}", e.style))?;
                }
                // All of them with the same tables.
                let tables = |n: &&Node| !matches!(n, B(STRTAB | SYMTAB, _));
                let mut bare: Doc = all.iter().filter(tables).cloned().collect();
                bare.push(strtab(b"mainfoobar, and what else is needed"));
                bare.push(symtab(b"symbols"));
                go(c, &bare, mask::ALL)?;
                // One of them is wrong.
                let bad = &docs.iter().zip(&own).find(|(_, o)| o.is_err()).unwrap().0 .1;
                for at in [0, n / 2, n - 1] {
                    let mut x: Doc = which[..at].iter().flat_map(|i| docs[*i].1.clone()).collect();
                    x.extend(bad.clone());
                    x.extend(which[at..].iter().flat_map(|i| docs[*i].1.clone()));
                    rate(c);
                    same_as(&Err("one is rejected".into()), &encode(&x, &PLAIN), &|| format!("{n} modules, and a wrong one at {at}"))?;
                }
                Ok(())
            },
        );
    }
}

fn has_info(d: &[Node]) -> bool {
    d.iter().any(|n| matches!(n, B(0, _)) || matches!(n, B(_, c) if has_info(c)))
}

fn count_records(d: &[Node]) -> usize {
    d.iter()
        .map(|n| match n {
            B(_, c) => count_records(c),
            R(..) => 1,
        })
        .sum()
}

fn count_nodes(d: &[Node]) -> usize {
    d.iter()
        .map(|n| match n {
            B(_, c) => 1 + count_nodes(c),
            R(..) => 1,
        })
        .sum()
}

/// The places where something unknown is ignored.
fn places(d: &[Node], path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>, record: bool) {
    for i in 0..=d.len() {
        if !path.is_empty() {
            let mut p = path.clone();
            p.push(i);
            out.push(p);
        }
        if let Some(B(id, c)) = d.get(i) {
            // Unknown records are errors in some blocks.
            if !(record && [TYPES, GROUPS, PARAMATTR].contains(id)) {
                path.push(i);
                places(c, path, out, record);
                path.pop();
            }
        }
    }
}

fn insert(d: &mut Vec<Node>, path: &[usize], n: Node) {
    match path {
        [i] => d.insert(*i, n),
        [i, rest @ ..] => match &mut d[*i] {
            B(_, c) => insert(c, rest, n),
            R(..) => unreachable!(),
        },
        [] => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// B08, for whole files

/// Every cut of a file is rejected, or maps to the first of its modules.
fn cuts(c: &Ctx, b: &[u8], all: bool) -> Result<bool, String> {
    let Ok(full) = observe(b) else {
        return Ok(false);
    };
    for n in (0..b.len()).step_by(if all { 1 } else { 4 }) {
        c.transitions(1);
        c.step();
        let Ok(mut got) = observe(&b[..n]) else {
            continue;
        };
        let (entries, term) = ref_parse(&b[..n]);
        let open = |e: &[Entry]| e.iter().filter(|e| matches!(e, Entry::Block { .. })).count() > e.iter().filter(|e| matches!(e, Entry::End)).count();
        if open(&entries) || matches!(term, Term::Error(_)) {
            return Err(format!("cut at {n} of {} bytes, which leaves a stream with the end {term:?}: mapped to {got:?}", b.len()));
        }
        let mut want: Vec<Mod> = full.iter().take(got.len()).cloned().collect();
        // The symbol tables at the end may have been cut off.
        for (g, w) in got.iter_mut().zip(&mut want) {
            if g.symtab.is_none() {
                w.symtab = None;
            }
        }
        if got != want {
            return Err(format!("cut at {n} of {} bytes: expected a prefix of {full:?}, got {got:?}", b.len()));
        }
        c.count("cuts that leave whole modules", (!got.is_empty()) as u64);
    }
    c.trace();
    c.count("bitcode files cut", 1);
    Ok(true)
}

pub fn cut_bitcode(c: &mut Ctx) {
    for (name, d) in documents() {
        for (i, style) in STYLES.into_iter().enumerate() {
            for width in [3, 4, 7] {
                c.case(
                    || format!("bitcode: {name}, {style:?}, width {width}, every cut"),
                    |c| {
                        let e = Enc { width, style };
                        if !cuts(c, &encode(&d, &e), i == 0)? {
                            return Err("rejected without a cut".into());
                        }
                        c.state(&(name, i, width));
                        Ok(())
                    },
                );
            }
        }
    }
    for len in 1..=c.q(10, 11) {
        for head in sequences(4, 3.min(len)).into_iter().filter(|h| h.len() == 3.min(len)) {
            let s: String = head.iter().map(|k| ['I', 'M', 'T', 'Y'][*k]).collect();
            if hopeless(&s) {
                continue;
            }
            c.case(
                || format!("bitcode: {len} top-level blocks starting with {s}, every cut"),
                |c| {
                    fn rest(c: &Ctx, s: &str, left: usize) -> Result<(), String> {
                        if hopeless(s) {
                            return Ok(());
                        }
                        if left == 0 {
                            if cuts(c, &encode(&tops(s), &PLAIN), false)? {
                                c.state(s);
                            }
                            return Ok(());
                        }
                        for k in ["I", "M", "T", "Y"] {
                            rest(c, &format!("{s}{k}"), left - 1)?;
                        }
                        Ok(())
                    }
                    rest(c, &s, len - s.len())
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// M15

/// What a part of a module is, by its code or ID.
fn kind(n: &Node) -> (bool, u64) {
    match n {
        B(id, _) => (true, *id),
        R(code, _) => (false, *code),
    }
}

/// All ways to merge two lists, each of which keeps its order: which of the two is next.
fn merges(a: usize, b: usize) -> Vec<Vec<bool>> {
    if a == 0 || b == 0 {
        return vec![[vec![false; a], vec![true; b]].concat()];
    }
    let mut v = vec![];
    for (first, rest) in [(false, merges(a - 1, b)), (true, merges(a, b - 1))] {
        v.extend(rest.into_iter().map(|r| [vec![first], r].concat()));
    }
    v
}

pub fn m15(c: &mut Ctx) {
    let mut docs: Vec<(String, Doc)> = documents().into_iter().map(|(n, d)| (n.to_string(), d)).collect();
    docs.extend(single_modules());
    let fun = |at: u64, n: u64| R(8, vec![at, n, 3, 0, 1, 3, 0, 0, 0, 0]);
    docs.push((
        "functions, aliases and names of all kinds".into(),
        rich(
            2,
            2,
            2,
            vec![
                fun(0, 4),
                R(14, vec![7, 3, 2, 0, 1, 3]),
                fun(4, 3),
                R(14, vec![0, 4, 2, 0, 2, 9, 1]),
                R(12, vec![0, 4, 3]),
                R(6, text("libm")),
                fun(0, 7),
                R(12, vec![4, 3, 1]),
                R(6, text("libc")),
            ],
            2,
        ),
    ));
    for (name, d) in &docs {
        let want = observe(&encode(d, &PLAIN));
        let modules: Vec<usize> = (0..d.len()).filter(|i| matches!(d[*i], B(MODULE, _))).collect();
        for (k, &m) in modules.iter().enumerate() {
            let B(_, parts) = &d[m] else { unreachable!() };
            if k > 2 || parts.is_empty() {
                continue;
            }
            let check = |c: &Ctx, n: usize, order: Vec<Node>| {
                let mut x = d.clone();
                x[m] = B(MODULE, order);
                c.step();
                c.trace();
                c.transitions(1);
                c.state(&x);
                let e = enc(n);
                same_as(&want, &encode(&x, &e), &|| format!("{e:?}, {}", show(&x)))
            };
            // In lists of what's of one kind.
            let mut lists: Vec<Vec<Node>> = vec![];
            for n in parts {
                match lists.iter_mut().find(|l| kind(&l[0]) == kind(n)) {
                    Some(l) => l.push(n.clone()),
                    None => lists.push(vec![n.clone()]),
                }
            }
            c.case(
                || format!("{name}, module {k}: every part at every other place"),
                |c| {
                    for i in 0..parts.len() {
                        for to in 0..parts.len() {
                            let (a, b) = (i.min(to), i.max(to));
                            if i == to || (a..=b).any(|j| j != i && kind(&parts[j]) == kind(&parts[i])) {
                                continue;
                            }
                            let mut order = parts.clone();
                            let n = order.remove(i);
                            order.insert(to, n);
                            check(c, i + to, order)?;
                        }
                    }
                    Ok(())
                },
            );
            let n = lists.len();
            let all = c.q(7, 9);
            c.case(
                || format!("{name}, module {k}: orders of the kinds"),
                |c| {
                    if n <= all {
                        for (i, p) in permutations(n).into_iter().enumerate() {
                            check(c, i, p.iter().flat_map(|i| lists[*i].clone()).collect())?;
                        }
                    }
                    // Every three kinds, one after the other, at the start, at the end, or around everything else.
                    for (i, p) in (0..n * n * n).map(|i| [i / n / n, i / n % n, i % n]).enumerate() {
                        if p[0] == p[1] || p[1] == p[2] || p[0] == p[2] {
                            continue;
                        }
                        let three = p.map(|i| lists[i].clone());
                        let mut rest: Vec<Vec<Node>> = (0..n).filter(|i| !p.contains(i)).map(|i| lists[i].clone()).collect();
                        if i % 2 == 1 {
                            rest.reverse();
                        }
                        check(c, i, [three.concat(), rest.concat()].concat())?;
                        check(c, i + 1, [rest.concat(), three.concat()].concat())?;
                        check(c, i + 2, [three[0].clone(), rest.concat(), three[1..].concat()].concat())?;
                    }
                    Ok(())
                },
            );
            c.case(
                || format!("{name}, module {k}: merges of every two kinds"),
                |c| {
                    for i in 0..n {
                        for j in 0..i {
                            if lists[i].len() + lists[j].len() > c.q(8, 12) {
                                continue;
                            }
                            let rest: Vec<Node> = (0..n).filter(|k| *k != i && *k != j).flat_map(|i| lists[i].clone()).collect();
                            for (l, m) in merges(lists[i].len(), lists[j].len()).into_iter().enumerate() {
                                let (mut a, mut b) = (lists[i].iter(), lists[j].iter());
                                let merged: Vec<Node> = m.iter().map(|second| if *second { b.next() } else { a.next() }.unwrap().clone()).collect();
                                check(c, l, [rest.clone(), merged.clone()].concat())?;
                                check(c, l + 1, [merged, rest.clone()].concat())?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// M14

/// A file with a function body in it has to be rejected.
fn not_without_bodies(c: &Ctx, d: &[Node], e: &Enc) -> Result<(), String> {
    c.step();
    c.trace();
    c.transitions(1);
    let b = encode(d, e);
    match Bitcode::try_from(&b[..]) {
        Ok(_) => Err(format!("mapped without its function bodies [{:?} {} bits: {}]", e.style, e.width, show(d))),
        Err(err) => {
            show_error(&err);
            Ok(())
        }
    }
}

/// The module, with `n` put in front of what was at place `at` of module `k` of the file.
fn with_body(d: &[Node], k: usize, at: usize, n: &[Node]) -> Option<Doc> {
    let mut d = d.to_vec();
    let m = d.iter_mut().filter_map(|n| if let B(MODULE, m) = n { Some(m) } else { None }).nth(k)?;
    if at > m.len() {
        return None;
    }
    m.splice(at..at, n.iter().cloned());
    Some(d)
}

const BODY: u64 = 12;

pub fn m14(c: &mut Ctx) {
    let fun = |decl: u64| R(8, vec![0, 2, 1, 0, decl, 0, 0, 0, 0, 0]);
    let home = |body: Vec<Node>| typed(fn_types(), vec![fun(0), B(BODY, body)], b"xx");
    // The same files without bodies map, so that it's the bodies that matter.
    c.case(
        || "files without bodies".into(),
        |c| {
            for d in documents().into_iter().map(|(_, d)| d).chain([typed(fn_types(), vec![fun(0)], b"xx"), typed(fn_types(), vec![fun(1)], b"xx")]) {
                c.trace();
                c.transitions(1);
                Bitcode::try_from(&encode(&d, &PLAIN)[..]).map_err(|e| format!("{e:?} [{}]", show(&d)))?;
            }
            Ok(())
        },
    );
    for code in 0..c.q(72, 400u64) {
        c.case(
            || format!("bodies with records of code {code}"),
            |c| {
                for n in 0..c.q(8, 14usize) {
                    for fill in [0, 1, 2, 3, 255, 1 << 32, u64::MAX] {
                        for first in [0, 1, 2, u64::MAX] {
                            let mut f = vec![fill; n];
                            if n > 0 {
                                f[0] = first;
                            }
                            for decl in 0..2 {
                                for body in [
                                    vec![R(code, f.clone())],
                                    vec![R(1, vec![1]), R(code, f.clone())],
                                    vec![R(1, vec![1]), R(code, f.clone()), R(10, vec![])],
                                    vec![R(code, f.clone()), R(1, vec![1])],
                                ] {
                                    not_without_bodies(c, &typed(fn_types(), vec![fun(decl), B(BODY, body)], b"xx"), &PLAIN)?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Sequences of what's in a body: supported and unsupported instructions, and blocks.
    let alphabet = [
        R(1, vec![1]),
        R(1, vec![0]),
        R(2, vec![1, 0, 1, 0]),
        R(3, vec![1, 0, 0, 0]),
        R(19, vec![0, 0, 1, 1]),
        R(20, vec![1, 0, 1, 0]),
        R(44, vec![1, 0, 1, 0]),
        R(56, vec![1, 0, 0]),
        R(10, vec![]),
        R(15, vec![]),
        R(35, vec![]),
        B(11, vec![R(1, vec![0]), R(4, vec![8])]),
        B(14, vec![R(1, vec![0, 97, 98])]),
        B(15, vec![]),
        B(60, vec![]),
    ];
    for (i, first) in alphabet.iter().enumerate() {
        let n = c.q(4, 5);
        c.case(
            || format!("every body of up to {} parts that starts with {}", n + 1, show(std::slice::from_ref(first))),
            |c| {
                for s in sequences(alphabet.len(), n) {
                    let body: Vec<Node> = std::iter::once(i).chain(s).map(|k| alphabet[k].clone()).collect();
                    c.state(&body);
                    not_without_bodies(c, &home(body), &PLAIN)?;
                }
                Ok(())
            },
        );
    }
    // Counts of basic blocks, and long bodies.
    c.case(
        || "counts of blocks, and long bodies".into(),
        |c| {
            for n in (0..300).chain(boundary_values()) {
                for f in [vec![n], vec![n, 0], vec![0, n]] {
                    not_without_bodies(c, &home(vec![R(1, f)]), &PLAIN)?;
                }
            }
            for n in many(c).into_iter().filter(|n| *n < 300) {
                let inst = R(3, vec![1, 0, 0, 0]);
                not_without_bodies(c, &home(vec![inst.clone(); n as usize]), &PLAIN)?;
                not_without_bodies(c, &home([vec![R(1, vec![n])], vec![inst; n as usize]].concat()), &PLAIN)?;
                // Many bodies.
                let d: Vec<Node> = std::iter::repeat(fun(0)).take(n as usize).chain((0..n).map(|k| B(BODY, vec![R(1, vec![k % 3])]))).collect();
                not_without_bodies(c, &typed(fn_types(), d, b"xx"), &PLAIN)?;
            }
            Ok(())
        },
    );
    // Bodies anywhere in any file, written in any way.
    let bodies: [Vec<Node>; 6] = [
        vec![B(BODY, vec![])],
        vec![B(BODY, vec![R(1, vec![0])])],
        vec![B(BODY, vec![R(1, vec![1]), R(10, vec![])])],
        vec![B(BODY, vec![R(1, vec![1]), R(3, vec![1, 0, 0, 0])])],
        vec![B(BODY, vec![B(11, vec![])])],
        vec![B(BODY, vec![R(1, vec![1]), R(10, vec![])]), B(BODY, vec![R(1, vec![1])])],
    ];
    let mut files: Vec<(String, Doc)> = documents().into_iter().map(|(n, d)| (n.to_string(), d)).collect();
    files.extend(single_modules());
    files.push(("functions".into(), typed(fn_types(), vec![fun(0), fun(1), alias(0, 2)], b"xx")));
    for (name, d) in &files {
        c.case(
            || format!("{name}, with bodies anywhere"),
            |c| {
                for k in 0.. {
                    if with_body(d, k, 0, &[]).is_none() {
                        break;
                    }
                    for at in 0.. {
                        if with_body(d, k, at, &[]).is_none() {
                            break;
                        }
                        for (i, b) in bodies.iter().enumerate() {
                            let Some(d) = with_body(d, k, at, b) else { unreachable!() };
                            c.state(&(name, k, at, i));
                            for e in 0..STYLES.len() {
                                not_without_bodies(c, &d, &enc(e))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
