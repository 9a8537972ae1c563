//! B01-B08: bounded exhaustive exploration of bitstreams.

use llvm_bitcursor::BitCursor;
use llvm_bitstream::abbrev::{Abbrev, AbbrevOp};
use llvm_bitstream::error::Error;
use llvm_bitstream::Bitstream;

use crate::alloc;
use crate::bits::{boundary_values, hex, BitWriter};
use crate::runner::Ctx;
use crate::stream::*;

// ---------------------------------------------------------------------------------------------
// Depth-first exploration of token sequences

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Enter(u64, usize),
    End,
    /// A definition `[Lit(unique), Vbr(6)]`.
    Def,
    SetBid(u64),
    Use(u64),
    Rec(u64, &'static [u64]),
    /// A complete BLOCKINFO block that registers a definition for each of these.
    Info(&'static [u64]),
}

#[derive(Clone)]
pub struct St {
    pub w: Writer,
    defs: u64,
}

/// The result of appending a token.
enum Step {
    No,
    Next(Box<St>),
    /// The token violates the format.
    Bad(Box<St>, &'static str),
}

const UNIQUE: u64 = 1000;

impl St {
    pub fn new() -> Self {
        St { w: Writer::new(), defs: 0 }
    }
    fn unique_def(&mut self) -> Def {
        self.defs += 1;
        vec![AOp::Lit(UNIQUE + self.defs), AOp::Vbr(6)]
    }
    fn step(&self, t: Tok) -> Step {
        let open = !self.w.scopes.is_empty();
        let info = self.w.in_info();
        let mut s = Box::new(self.clone());
        match t {
            Tok::Enter(id, width) => {
                if info {
                    return Step::No;
                }
                s.w.enter(id, width);
            }
            Tok::End => {
                if !open {
                    return Step::No;
                }
                s.w.end();
            }
            Tok::Def => {
                if !open || (info && self.w.bid.is_none()) {
                    return Step::No;
                }
                let d = s.unique_def();
                s.w.def(&d);
            }
            Tok::SetBid(b) => {
                if !info {
                    return Step::No;
                }
                s.w.setbid(b);
            }
            Tok::Use(id) => {
                if !open || info || s.w.width() < 3 {
                    return Step::No;
                }
                let def = s.w.scopes.last().unwrap().abbrevs.get(id as usize - 4).cloned();
                match def {
                    Some(d) => {
                        let AOp::Lit(code) = d[0] else { unreachable!() };
                        s.w.abbrev(id, code, &[id * 11]);
                    }
                    None => {
                        s.w.abbrev_id(id);
                        s.w.w.vbr(id * 11, 6);
                        return Step::Bad(s, "undefined abbreviation");
                    }
                }
            }
            Tok::Rec(code, f) => {
                if !open || info {
                    return Step::No;
                }
                s.w.unabbrev(code, f);
            }
            Tok::Info(bids) => {
                if info {
                    return Step::No;
                }
                s.w.enter(0, 2);
                for b in bids {
                    s.w.setbid(*b);
                    let d = s.unique_def();
                    s.w.def(&d);
                }
                s.w.end();
            }
        }
        Step::Next(s)
    }
    /// The abstract state: what's in scope where.
    fn abstract_state(&self) -> (Vec<(u64, Vec<Def>)>, Vec<(u64, Vec<Def>)>, Option<u64>) {
        (
            self.w.scopes.iter().map(|s| (s.id, s.abbrevs.clone())).collect(),
            self.w.info.iter().map(|(k, v)| (*k, v.clone())).collect(),
            if self.w.in_info() { self.w.bid } else { None },
        )
    }
}

type Visit<'a> = &'a dyn Fn(&Ctx, &St, Option<&'static str>) -> Result<(), String>;

fn dfs(c: &Ctx, s: &St, toks: &[Tok], depth: usize, states: bool, visit: Visit) -> Result<(), String> {
    if states {
        c.state(&s.abstract_state());
    }
    visit(c, s, None)?;
    if depth == 0 {
        return Ok(());
    }
    for t in toks {
        match s.step(*t) {
            Step::No => {}
            Step::Next(n) => {
                c.transitions(1);
                dfs(c, &n, toks, depth - 1, states, visit)?;
            }
            Step::Bad(n, what) => {
                c.transitions(1);
                visit(c, &n, Some(what))?;
            }
        }
    }
    Ok(())
}

/// Explore all sequences of at most `depth` tokens; a case per prefix of length `split`.
fn explore(c: &mut Ctx, name: &str, toks: &[Tok], depth: usize, split: usize, states: bool, visit: Visit) {
    // All prefixes, in order; the short ones are explored without their extensions.
    fn prefixes(s: &St, toks: &[Tok], path: &mut Vec<Tok>, split: usize, out: &mut Vec<(Vec<Tok>, St)>) {
        out.push((path.clone(), s.clone()));
        if path.len() == split {
            return;
        }
        for t in toks {
            if let Step::Next(n) = s.step(*t) {
                path.push(*t);
                prefixes(&n, toks, path, split, out);
                path.pop();
            }
        }
    }
    let mut all = vec![];
    prefixes(&St::new(), toks, &mut vec![], split, &mut all);
    for (path, s) in all {
        c.case(
            || format!("{name}: after {path:?}, all sequences of {depth} tokens in total"),
            |c| {
                c.transitions(path.len() as u64);
                if path.len() == split {
                    return dfs(c, &s, toks, depth - split, states, visit);
                }
                visit(c, &s, None)?;
                for t in toks {
                    if let Step::Bad(n, what) = s.step(*t) {
                        visit(c, &n, Some(what))?;
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// B01

fn iterate(b: &[u8], want: &[Entry]) -> Result<(), String> {
    let (_, s) = Bitstream::from(b).map_err(|e| format!("{e:?}"))?;
    let got: Vec<String> = s.take(want.len() + 3).map(|e| format!("{:?}", e.map_err(|_| ()))).collect();
    let (_, mut t) = Bitstream::from(b).map_err(|e| format!("{e:?}"))?;
    let adv: Vec<String> = (0..want.len()).map(|_| format!("{:?}", t.advance().map_err(|_| ()))).collect();
    if got != adv {
        return Err(format!("iterating differs from advancing: {got:?} vs {adv:?} [stream {}]", hex(b)));
    }
    Ok(())
}

/// Counts that don't fit what one might count with.
const BIG: [u64; 8] = [255, 256, 257, 65535, 65536, 65537, 100_000, (1 << 20) + 1];

pub fn b01(c: &mut Ctx) {
    // Shapes.
    const SHAPE: [Tok; 7] = [Tok::Enter(8, 2), Tok::Enter(8, 3), Tok::Enter(300, 7), Tok::End, Tok::Rec(0, &[]), Tok::Rec(63, &[1, 32]), Tok::Rec(u64::MAX, &[u64::MAX])];
    explore(c, "shapes", &SHAPE, c.q(9, 10), 3, true, &|c, s, _| {
        c.trace();
        s.w.clone().check()
    });
    explore(c, "iteration", &SHAPE, 5, 2, false, &|c, s, _| {
        c.trace();
        let (b, want) = s.w.clone().done();
        iterate(&b, &want)
    });
    // Magics.
    c.case(
        || "magics".into(),
        |c| {
            for m in [0, 1, MAGIC, u32::MAX, 0x8000_0000, 0x0b17_c0df, 0xdec0_170b, 0x4342_c0de] {
                let mut w = Writer::with_magic(m);
                w.enter(8, 3);
                w.unabbrev(1, &[2]);
                c.trace();
                w.check()?;
            }
            Ok(())
        },
    );
    let bv = boundary_values();
    // Block IDs and widths.
    for width in 1..=32 {
        c.case(
            || format!("block IDs with width {width}"),
            |c| {
                for id in bv.iter().filter(|v| **v != 0) {
                    let mut w = Writer::new();
                    w.enter(*id, width);
                    if width >= 2 {
                        w.unabbrev(1, &[*id]);
                        w.enter(*id, 33 - width.min(31));
                        w.end();
                        w.unabbrev(2, &[*id]);
                    }
                    c.transitions(5);
                    c.trace();
                    w.check()?;
                }
                Ok(())
            },
        );
    }
    // Unabbreviated records: codes and fields at every width (so at many bit offsets).
    for width in 2..=32 {
        c.case(
            || format!("unabbreviated values with width {width}"),
            |c| {
                for v in &bv {
                    for n in 0..4 {
                        let mut w = Writer::new();
                        w.enter(8, width);
                        for k in 0..n {
                            w.unabbrev(k, &[]);
                        }
                        w.unabbrev(*v, &[*v, 0, *v]);
                        w.unabbrev(5, &[7]);
                        c.transitions(4);
                        c.trace();
                        w.check()?;
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("unabbreviated lengths with width {width}"),
            |c| {
                for n in (0..=70).chain([127, 128, 1000, 1023, 1024, 1025, 5000]) {
                    let f: Vec<u64> = (0..n).map(|i| bv[(i * 7) as usize % bv.len()]).collect();
                    let mut w = Writer::new();
                    w.enter(8, width);
                    w.unabbrev(n, &f);
                    w.unabbrev(9, &[9]);
                    c.transitions(4);
                    c.trace();
                    w.check()?;
                }
                Ok(())
            },
        );
    }
    // All abbreviation IDs that fit a width, and some more.
    for width in 3..=32usize {
        c.case(
            || format!("abbreviation IDs with width {width}"),
            |c| {
                let n = if width <= 9 { (1 << width) - 4 } else { 600 };
                for info in [0, n / 2, n] {
                    let mut w = Writer::new();
                    let def = |k: u64| vec![AOp::Lit(k + 10), AOp::Vbr(6)];
                    w.blockinfo(2, &[(8, (0..info).map(def).collect())]);
                    w.enter(8, width);
                    for k in info..n {
                        w.def(&def(k));
                    }
                    for k in (0..n).chain((0..n).rev()) {
                        w.abbrev(k + 4, k + 10, &[k]);
                        c.transitions(1);
                    }
                    c.trace();
                    w.check()?;
                }
                Ok(())
            },
        );
    }
    // Nesting, and long blocks.
    for n in (1..=40).chain([100, 255, 256, 257, 1000, 3000, 65_535, 65_536, 65_537, 100_000]) {
        c.case(
            || format!("{n} nested blocks"),
            |c| {
                let mut w = Writer::new();
                for k in 0..n {
                    w.enter(8 + k % 3, 2 + k as usize % 7);
                    w.unabbrev(k, &[k]);
                }
                for k in 0..n {
                    w.unabbrev(k + 1, &[]);
                    w.end();
                }
                c.transitions(4 * n);
                c.trace();
                w.check()
            },
        );
    }
    for n in [1u64, 63, 64, 255, 256, 65535, 65536, 65537, c.q(70000, 1 << 20)] {
        c.case(
            || format!("a block of {n} words"),
            |c| {
                let mut w = Writer::new();
                w.enter(8, 4);
                let id = w.def(&[AOp::Lit(3), AOp::Blob]);
                // The definition is in the first word, the length of the blob and its ID in the
                // next words; fill up with records of whole words.
                let want = w.scopes[0].abbrevs.len();
                assert!(want == 1);
                let bytes: Vec<u64> = (0..(n.saturating_sub(6)) * 4).map(|i| i % 251).collect();
                w.abbrev(id, 3, &bytes);
                c.transitions(n);
                c.trace();
                w.check()
            },
        );
    }
    // Counts around powers of two: operands, records, sibling blocks, records between blocks.
    for n in BIG {
        c.case(
            || format!("records with {n} operands"),
            |c| {
                let bytes: Vec<u64> = (0..n).map(|i| (i * 7 + i / 251) % 256).collect();
                let chars: Vec<u64> = bytes.iter().map(|v| 97 + v % 26).collect();
                let mut w = Writer::new();
                w.enter(8, 4);
                let defs = [vec![AOp::Lit(3), AOp::Blob], vec![AOp::Lit(3), array(AOp::Fixed(8))], vec![AOp::Vbr(6), array(AOp::Vbr(6))], vec![AOp::Fixed(2), array(AOp::Char6)]];
                let ids: Vec<u64> = defs.iter().map(|d| w.def(d)).collect();
                w.unabbrev(3, &bytes);
                for (id, d) in ids.iter().zip(&defs) {
                    w.abbrev(*id, 3, if d[1] == array(AOp::Char6) { &chars } else { &bytes });
                    w.unabbrev(4, &[5]);
                }
                c.transitions(10);
                c.trace();
                w.check()
            },
        );
        c.case(
            || format!("{n} records, and {n} blocks"),
            |c| {
                let mut w = Writer::new();
                for k in 0..n {
                    w.enter(8 + k % 2, 3);
                    w.end();
                }
                w.enter(8, 3);
                w.def(&[AOp::Vbr(6)]);
                for k in 0..n {
                    if k % 3 == 0 {
                        w.abbrev(4, k % 7, &[]);
                    } else {
                        w.unabbrev(k % 7, &[]);
                    }
                }
                c.transitions(2 * n);
                c.trace();
                w.check()
            },
        );
    }
    // Every declared length (of blocks whose rest doesn't follow, as in a truncated file).
    c.case(
        || "declared lengths".into(),
        |c| {
            let words: Vec<u32> = bv.iter().filter_map(|v| u32::try_from(*v).ok()).collect();
            for (i, len) in words.iter().enumerate() {
                for depth in 1..=3 {
                    let mut w = Writer::new();
                    for k in 0..depth {
                        let len = words[(i + k) % words.len()];
                        w.enter(8 + k as u64, 2 + k);
                        let s = w.scopes.last().unwrap();
                        let (start, entry) = (s.start, s.entry.unwrap());
                        w.w.patch32(start - 32, len);
                        w.want[entry] = Entry::Block { id: 8 + k as u64, len: u64::from(len) * 4 };
                    }
                    let (b, want) = w.cut();
                    c.transitions(depth as u64);
                    c.trace();
                    check(&b, &want, Term::EndInBlock).map_err(|e| format!("length {len}: {e}"))?;
                }
            }
            Ok(())
        },
    );
    // Every way to encode a record.
    let vals: &[u64] = &[0, 1, 31, 32, 97, 255, 256, u32::MAX as u64, u64::MAX];
    let mut records: Vec<Vec<u64>> = vec![];
    for a in vals {
        records.push(vec![*a]);
        for b in vals {
            records.push(vec![*a, *b]);
            for d in vals {
                records.push(vec![*a, *b, *d]);
            }
        }
    }
    for r in records {
        c.case(
            || format!("every encoding of the record {r:?}"),
            |c| {
                for def in all_defs(&r, c.q(3, 4)) {
                    let (code, f) = (r[0], &r[1..]);
                    for info in [false, true] {
                        let mut w = Writer::new();
                        if info {
                            w.blockinfo(2, &[(8, vec![def.clone()])]);
                        }
                        w.enter(8, 3);
                        w.unabbrev(code, f);
                        if !info {
                            w.def(&def);
                        }
                        w.abbrev(4, code, f);
                        w.unabbrev(code, f);
                        w.abbrev(4, code, f);
                        c.transitions(4);
                        c.trace();
                        w.check()?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// All definitions over a set of operands that can express the record, with a scalar code.
fn all_defs(vals: &[u64], max: usize) -> Vec<Def> {
    let elems = [AOp::Fixed(1), AOp::Fixed(7), AOp::Fixed(32), AOp::Vbr(2), AOp::Vbr(6), AOp::Vbr(32), AOp::Char6];
    let mut out = vec![];
    fn go(vals: &[u64], at: usize, def: &mut Def, elems: &[AOp], max: usize, out: &mut Vec<Def>) {
        if at == vals.len() {
            out.push(def.clone());
        }
        if at > 0 && def.len() < max {
            for tail in elems.iter().map(|e| array(e.clone())).chain([AOp::Blob]) {
                if expressible(std::slice::from_ref(&tail), &vals[at..]) {
                    def.push(tail);
                    out.push(def.clone());
                    def.pop();
                }
            }
        }
        if at == vals.len() || def.len() >= max {
            return;
        }
        for op in elems.iter().cloned().chain([AOp::Lit(vals[at])]) {
            if expressible(std::slice::from_ref(&op), &vals[at..=at]) {
                def.push(op);
                go(vals, at + 1, def, elems, max, out);
                def.pop();
            }
        }
    }
    go(vals, 0, &mut vec![], &elems, max, &mut out);
    out
}

// ---------------------------------------------------------------------------------------------
// B02

pub fn b02(c: &mut Ctx) {
    const FINE: [Tok; 11] =
        [Tok::Enter(8, 4), Tok::Enter(9, 3), Tok::Enter(0, 2), Tok::End, Tok::Def, Tok::SetBid(8), Tok::SetBid(9), Tok::Use(4), Tok::Use(5), Tok::Use(6), Tok::Rec(7, &[])];
    explore(c, "actions", &FINE, c.q(7, 8), 3, true, &|c, s, bad| {
        c.trace();
        match bad {
            None => s.w.clone().check(),
            Some(what) => s.w.clone().check_error(what),
        }
    });
    // Whole BLOCKINFO blocks instead, so that longer histories fit; what's in scope is probed in
    // every state, and while the open blocks are closed.
    const COARSE: [Tok; 8] = [Tok::Enter(8, 4), Tok::Enter(9, 5), Tok::End, Tok::Def, Tok::Info(&[8]), Tok::Info(&[9]), Tok::Info(&[8, 9, 8]), Tok::Enter(10, 4)];
    explore(c, "scopes", &COARSE, c.q(7, 8), 3, true, &|c, s, _| {
        let mut s = s.w.clone();
        let probe = |w: &mut Writer| {
            for k in 0..w.scopes.last().unwrap().abbrevs.len() {
                let AOp::Lit(code) = w.scopes.last().unwrap().abbrevs[k][0] else { unreachable!() };
                if (k as u64 + 4) >> w.width() == 0 {
                    w.abbrev(k as u64 + 4, code, &[k as u64]);
                    c.transitions(1);
                }
            }
        };
        while !s.scopes.is_empty() {
            probe(&mut s);
            // The first ID that isn't defined.
            let n = s.scopes.last().unwrap().abbrevs.len() as u64 + 4;
            if n >> s.width() == 0 {
                let mut bad = s.clone();
                bad.abbrev_id(n);
                bad.w.vbr(0, 6);
                c.transitions(1);
                c.trace();
                bad.check_error("undefined abbreviation")?;
            }
            s.end();
        }
        // And in fresh blocks.
        for id in [8, 9, 10] {
            s.enter(id, 6);
            probe(&mut s);
            s.enter(8, 6);
            probe(&mut s);
            s.end();
            s.end();
        }
        c.trace();
        s.check()
    });
    // Registrations for other IDs, including BLOCKINFO's own and huge ones.
    let bv = boundary_values();
    for (i, a) in bv.iter().enumerate() {
        c.case(
            || format!("registrations for block ID {a}"),
            |c| {
                for b in [bv[(i + 1) % bv.len()], bv[(i + 7) % bv.len()], 8] {
                    let mut w = Writer::new();
                    let d = |k| vec![AOp::Lit(k), AOp::Fixed(3)];
                    w.blockinfo(3, &[(*a, vec![d(1), d(2)]), (b, vec![d(3)]), (*a, vec![d(4)])]);
                    for id in [*a, b, a.wrapping_add(1), a >> 1, a ^ (1 << 63), a & 0xffff_ffff, 8] {
                        if id == 0 {
                            continue;
                        }
                        w.enter(id, 4);
                        let l = w.def(&d(9));
                        for k in 4..=l {
                            let AOp::Lit(code) = w.scopes[0].abbrevs[k as usize - 4][0] else { unreachable!() };
                            w.abbrev(k, code, &[5]);
                            c.transitions(1);
                        }
                        w.end();
                    }
                    c.trace();
                    w.check()?;
                }
                Ok(())
            },
        );
    }
    // Many definitions.
    for info in [0u64, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 251, 252, 253, 255, 256, 257, 300, 1000, 65531, 65532, 65533, 65536, 65537, 70000] {
        for local in [0u64, 1, 2, 64, 251, 252, 253, 256, 300, 65536] {
            if info + local < 20 || info > 1000 && local > 300 && !c.thorough() {
                continue;
            }
            c.case(
                || format!("{info} registered and {local} other definitions"),
                |c| {
                    let d = |k: u64| vec![AOp::Lit(k), AOp::Fixed(5)];
                    let n = info + local;
                    // What's probed: around all powers of two, of all kinds of numbers.
                    let mut probes = std::collections::BTreeSet::from([0, n - 1, n / 2, info.saturating_sub(1), info.min(n - 1), n.saturating_sub(2)]);
                    for k in 0..18 {
                        for x in -6i64..=3 {
                            let p = (1i64 << k) + x;
                            probes.extend([p, p + info as i64].iter().filter(|p| (0..n as i64).contains(*p)).map(|p| *p as u64));
                        }
                    }
                    let use_all = |w: &mut Writer| {
                        let have = w.scopes.last().unwrap().abbrevs.len() as u64;
                        for p in probes.iter().filter(|p| **p < have) {
                            let AOp::Lit(code) = w.scopes.last().unwrap().abbrevs[*p as usize][0] else { unreachable!() };
                            w.abbrev(p + 4, code, &[p % 32]);
                            c.transitions(1);
                        }
                    };
                    let mut w = Writer::new();
                    w.blockinfo(2, &[(8, (0..info).map(d).collect()), (9, vec![d(1 << 40)])]);
                    w.enter(8, 18);
                    use_all(&mut w);
                    for k in 0..local {
                        w.def(&d(1 << 20 | k));
                    }
                    use_all(&mut w);
                    // A child, and a sibling.
                    w.enter(8, 18);
                    use_all(&mut w);
                    w.end();
                    w.enter(9, 18);
                    use_all(&mut w);
                    w.end();
                    use_all(&mut w);
                    for past in [n, n + 1, n + 256, n + 65536, info + 256, info + 65536] {
                        if past < n || past + 4 >= 1 << 18 {
                            continue;
                        }
                        let mut bad = w.clone();
                        bad.abbrev_id(past + 4);
                        bad.w.put(0, 64);
                        c.trace();
                        bad.check_error("undefined abbreviation")?;
                    }
                    w.end();
                    w.enter(8, 18);
                    use_all(&mut w);
                    if local > 0 {
                        let mut bad = w.clone();
                        bad.abbrev_id(info + 4);
                        bad.w.put(0, 64);
                        c.trace();
                        bad.check_error("undefined abbreviation")?;
                    }
                    c.trace();
                    w.check()
                },
            );
        }
    }
    // Many BLOCKINFO blocks, block IDs, and nested blocks.
    for n in [2u64, 16, 17, 32, 64, 65, 100, 128, 129, 255, 256, 257, 1000] {
        c.case(
            || format!("{n} BLOCKINFO blocks, block IDs and nested blocks"),
            |c| {
                let d = |k: u64| vec![AOp::Lit(k), AOp::Fixed(5)];
                for inside in [false, true] {
                    let mut w = Writer::new();
                    for k in 0..n {
                        // Inside of what was opened so far, or in front of it.
                        w.blockinfo(2, &[(8 + k, vec![d(k)]), (8, vec![d(1 << 20 | k)])]);
                        if inside {
                            w.enter(8 + k, 12);
                            w.def(&d(1 << 30 | k));
                        }
                    }
                    if !inside {
                        for k in 0..n {
                            w.enter(8 + k, 12);
                            w.def(&d(1 << 30 | k));
                        }
                    }
                    while !w.scopes.is_empty() {
                        let have = w.scopes.last().unwrap().abbrevs.clone();
                        for p in [0, 1, have.len() / 2, have.len() - 1] {
                            if let Some(a) = have.get(p) {
                                let AOp::Lit(code) = a[0] else { unreachable!() };
                                w.abbrev(p as u64 + 4, code, &[p as u64 % 32]);
                                c.transitions(1);
                            }
                        }
                        let mut bad = w.clone();
                        bad.abbrev_id(have.len() as u64 + 4);
                        bad.w.put(0, 64);
                        if w.scopes.len() % 16 == 1 {
                            c.trace();
                            bad.check_error("undefined abbreviation")?;
                        }
                        w.end();
                    }
                    c.trace();
                    w.check()?;
                }
                Ok(())
            },
        );
    }
    // BLOCKINFO blocks and others of all widths.
    for info in 2..=32 {
        c.case(
            || format!("a BLOCKINFO of width {info} in and before blocks of all widths"),
            |c| {
                let d = |k: u64| vec![AOp::Lit(k), AOp::Fixed(5)];
                for outer in 2..=32 {
                    for user in 3..=32 {
                        let mut w = Writer::new();
                        w.blockinfo(info, &[(8, vec![d(1), d(2)]), (9, vec![d(3)])]);
                        w.enter(10, outer);
                        w.blockinfo(info, &[(8, vec![d(4)])]);
                        for id in [8, 9, 8] {
                            w.enter(id, user);
                            let have = w.scopes.last().unwrap().abbrevs.clone();
                            for (p, a) in have.iter().enumerate() {
                                let AOp::Lit(code) = a[0] else { unreachable!() };
                                if (p as u64 + 4) >> user == 0 {
                                    w.abbrev(p as u64 + 4, code, &[p as u64 + 1]);
                                    c.transitions(1);
                                }
                            }
                            w.end();
                        }
                        // And without others between.
                        w.blockinfo(info, &[(11, vec![d(5)])]);
                        w.blockinfo(outer, &[(9, vec![d(6)])]);
                        w.end();
                        for (id, codes) in [(11, &[5][..]), (9, &[3, 6]), (8, &[1, 2, 4])] {
                            w.enter(id, user);
                            for (p, code) in codes.iter().enumerate() {
                                if (p as u64 + 4) >> user == 0 {
                                    w.abbrev(p as u64 + 4, *code, &[p as u64 + 1]);
                                    c.transitions(1);
                                }
                            }
                            w.end();
                        }
                        c.trace();
                        w.check()?;
                    }
                }
                Ok(())
            },
        );
    }
    // Definitions that are equal to others are still definitions.
    for reg in crate::mapper::sequences(3, 4) {
        c.case(
            || format!("equal and unequal definitions, registered {reg:?}"),
            |c| {
                let d = |k: usize| vec![AOp::Lit([3, 3, 4][k]), [AOp::Fixed(5), AOp::Vbr(6), AOp::Fixed(5)][k].clone()];
                for split in 0..=reg.len() {
                    for local in crate::mapper::sequences(3, 3) {
                        let mut w = Writer::new();
                        w.blockinfo(2, &[(8, reg[..split].iter().map(|k| d(*k)).collect()), (9, vec![d(0)]), (8, reg[split..].iter().map(|k| d(*k)).collect())]);
                        for id in [8, 9, 8] {
                            w.enter(id, 5);
                            for k in &local {
                                w.def(&d(*k));
                            }
                            let have = w.scopes.last().unwrap().abbrevs.clone();
                            for (p, a) in have.iter().enumerate() {
                                let AOp::Lit(code) = a[0] else { unreachable!() };
                                w.abbrev(p as u64 + 4, code, &[p as u64 + 1]);
                                c.transitions(1);
                            }
                            let mut bad = w.clone();
                            bad.abbrev_id(have.len() as u64 + 4);
                            bad.w.put(0, 64);
                            c.trace();
                            bad.check_error("undefined abbreviation")?;
                            w.end();
                        }
                        c.trace();
                        w.check()?;
                    }
                }
                Ok(())
            },
        );
    }
    // Only the first operand of SETBID counts.
    c.case(
        || "SETBID with more operands".into(),
        |c| {
            for more in [&[9u64][..], &[9, 10], &[0], &[u64::MAX; 5]] {
                let d = |k| vec![AOp::Lit(k), AOp::Fixed(3)];
                let mut w = Writer::new();
                w.enter(0, 3);
                w.unabbrev(1, &[&[8], more].concat());
                w.bid = Some(8);
                w.def(&d(1));
                w.unabbrev(1, &[&[10], more].concat());
                w.bid = Some(10);
                w.def(&d(2));
                w.end();
                w.enter(8, 3);
                w.abbrev(4, 1, &[3]);
                w.enter(10, 3);
                w.abbrev(4, 2, &[3]);
                w.enter(9, 3);
                let mut bad = w.clone();
                c.transitions(4);
                c.trace();
                w.check()?;
                bad.abbrev_id(4);
                c.trace();
                bad.check_error("undefined abbreviation")?;
            }
            Ok(())
        },
    );
    // Names of any length for blocks and for records with any code.
    c.case(
        || "names of any record in BLOCKINFO".into(),
        |c| {
            let mut names: Vec<(u64, Vec<u64>)> = vec![];
            for code in (0..=300).chain([511, 512, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, u64::MAX]) {
                names.push((3, vec![code]));
                names.push((3, vec![code, 97, 98]));
                names.push((2, vec![code]));
            }
            for n in 0..=80 {
                names.push((2, (0..n).map(|k| 97 + k % 26).collect()));
                names.push((3, (0..n).map(|k| 97 + k % 26).collect()));
            }
            for a in 0..=257 {
                names.push((2, vec![97, a, 98]));
                names.push((3, vec![1, 97, a, 98]));
            }
            for (code, f) in names {
                for at in 0..3 {
                    let mut w = Writer::new();
                    let d = |k| vec![AOp::Lit(k), AOp::Fixed(3)];
                    w.enter(0, 3);
                    w.setbid(8);
                    for k in 0..2 {
                        if at == k {
                            w.unabbrev(code, &f);
                        }
                        w.def(&d(1 + k));
                    }
                    if at == 2 {
                        w.unabbrev(code, &f);
                    }
                    w.setbid(9);
                    w.def(&d(4));
                    w.end();
                    w.enter(8, 3);
                    w.abbrev(4, 1, &[3]);
                    w.abbrev(5, 2, &[4]);
                    w.end();
                    w.enter(9, 3);
                    w.abbrev(4, 4, &[5]);
                    c.transitions(3);
                    c.trace();
                    w.check()?;
                }
            }
            Ok(())
        },
    );
    // Abbreviations registered for BLOCKINFO itself, and what its records say when written with them.
    c.case(
        || "abbreviated records in BLOCKINFO".into(),
        |c| {
            use AOp::*;
            let arr = |e: AOp| Array(Box::new(e));
            let defs: Vec<Vec<AOp>> = vec![
                vec![Lit(1), Fixed(5)],
                vec![Lit(1), Vbr(6)],
                vec![Vbr(3), Vbr(3)],
                vec![Fixed(3), Fixed(32)],
                vec![Fixed(2), arr(Fixed(6))],
                vec![Vbr(6), arr(Vbr(6))],
                vec![Lit(1), Vbr(4), arr(Fixed(8))],
                vec![Lit(1), Blob],
                vec![Lit(1), Lit(9)],
                vec![Lit(2), arr(Char6)],
                vec![Lit(3), Vbr(6), arr(Fixed(7))],
                vec![Fixed(2), Fixed(7), Blob],
            ];
            let records: [(u64, &[u64]); 7] = [(1, &[8]), (1, &[9]), (1, &[9, 3]), (2, &[97, 98]), (2, &[9]), (3, &[9, 97]), (3, &[1])];
            let body = |k| vec![Lit(k), Fixed(3)];
            for def in &defs {
                for filler in 0..3 {
                    for width in 3..7 {
                        for (code, fields) in records {
                            let mut vals = vec![code];
                            vals.extend(fields);
                            if !expressible(def, &vals) {
                                continue;
                            }
                            c.step();
                            let mut w = Writer::new();
                            let mut defs = vec![vec![Lit(2), Vbr(6)]; filler];
                            defs.push(def.clone());
                            w.blockinfo(2, &[(0, defs)]);
                            w.enter(0, width);
                            w.setbid(8);
                            w.def(&body(1));
                            w.abbrev(filler as u64 + 4, code, fields);
                            w.def(&body(2));
                            w.abbrev(filler as u64 + 4, code, fields);
                            w.def(&body(3));
                            w.end();
                            for (block, from) in [(8, 1), (9, 2)] {
                                w.enter(block, 3);
                                // The ones registered for this block, in order.
                                let codes: &[u64] = match (code == 1 && fields[0] == 9, block) {
                                    (true, 8) => &[1],
                                    (true, _) => &[2, 3],
                                    (false, 8) => &[1, 2, 3],
                                    (false, _) => &[],
                                };
                                for (i, k) in codes.iter().enumerate() {
                                    w.abbrev(i as u64 + 4, *k, &[from]);
                                }
                                let mut bad = w.clone();
                                bad.abbrev_id(codes.len() as u64 + 4);
                                c.transitions(1);
                                c.trace();
                                bad.check_error("undefined abbreviation")?;
                                w.end();
                            }
                            c.state(&(def, filler, width, code, fields));
                            c.transitions(1);
                            c.trace();
                            w.check()?;
                        }
                    }
                }
            }
            // A block ID that can't be read, or isn't there.
            for n in 0..3 {
                let mut w = Writer::new();
                w.blockinfo(2, &[(0, vec![vec![Vbr(6), arr(Vbr(6))]])]);
                w.enter(0, 3);
                if n > 0 {
                    w.setbid(8);
                }
                if n == 2 {
                    w.def(&body(1));
                }
                w.abbrev(4, 1, &[]);
                c.trace();
                w.check_error("SETBID without ID")?;
            }
            Ok(())
        },
    );
    // Records that BLOCKINFO may contain besides SETBID don't change what's selected.
    c.case(
        || "names in BLOCKINFO".into(),
        |c| {
            for code in [2, 3] {
                for f in [&[][..], &[9], &[9, 97, 98], &[8, 9, 10, 11]] {
                    for at in 0..4 {
                        let mut w = Writer::new();
                        let d = |k| vec![AOp::Lit(k), AOp::Fixed(3)];
                        w.enter(0, 3);
                        if at == 0 {
                            w.unabbrev(code, f);
                        }
                        w.setbid(8);
                        if at == 1 {
                            w.unabbrev(code, f);
                        }
                        w.def(&d(1));
                        if at == 2 {
                            w.unabbrev(code, f);
                        }
                        w.def(&d(2));
                        if at == 3 {
                            w.unabbrev(code, f);
                        }
                        w.end();
                        w.enter(8, 3);
                        w.abbrev(4, 1, &[3]);
                        w.abbrev(5, 2, &[4]);
                        w.end();
                        let mut bad = w.clone();
                        w.enter(9, 3);
                        c.trace();
                        w.check()?;
                        bad.enter(9, 3);
                        bad.abbrev_id(4);
                        c.transitions(1);
                        c.trace();
                        bad.check_error("undefined abbreviation")?;
                    }
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// B03

fn conv(op: &AOp) -> AbbrevOp {
    match op {
        AOp::Lit(v) => AbbrevOp::Literal(*v),
        AOp::Fixed(w) => AbbrevOp::Fixed(*w),
        AOp::Vbr(w) => AbbrevOp::Vbr(*w),
        AOp::Char6 => AbbrevOp::Char6,
        AOp::Array(e) => AbbrevOp::Array(Box::new(conv(e))),
        AOp::Blob => AbbrevOp::Blob,
    }
}

/// Define and use an abbreviation directly, `off` bits behind the start of the stream.
fn direct(c: &Ctx, def: &[AOp], vals: &[u64], off: usize) -> Result<(), String> {
    let mut w = BitWriter::new();
    w.put(u64::MAX, off.min(64));
    for _ in 64..off {
        w.bit(true);
    }
    put_def(&mut w, def);
    let mid = w.len;
    put_values(&mut w, def, vals);
    let end = w.len;
    w.put(u64::MAX, 40);
    w.align(64);
    let b = w.finish();
    c.transitions(2);
    c.trace();
    c.state(&(def, off));
    let at = |what: &str| format!("{what} [definition {def:?}, values {:?}, bit offset {off}]", &vals[..vals.len().min(20)]);
    let mut cur = BitCursor::new(&b[..]);
    cur.seek_bit(off).map_err(|e| at(&format!("{e:?}")))?;
    let a = Abbrev::new(&mut cur).map_err(|e| at(&format!("definition rejected: {e:?}")))?;
    let want: Vec<AbbrevOp> = def.iter().map(conv).collect();
    if a.operands != want {
        return Err(at(&format!("definition parsed as {:?}", a.operands)));
    }
    if cur.tell_bit() != mid {
        return Err(at(&format!("definition ends at bit {} instead of {mid}", cur.tell_bit())));
    }
    let v = a.parse(&mut cur).map_err(|e| at(&format!("record rejected: {e:?}")))?;
    if v != vals {
        return Err(at(&format!("record parsed as {:?}", &v[..v.len().min(20)])));
    }
    if cur.tell_bit() != end {
        return Err(at(&format!("record ends at bit {} instead of {end}", cur.tell_bit())));
    }
    Ok(())
}

/// Use an abbreviation (with a literal code in front) within a stream.
fn streamed(c: &Ctx, def: &[AOp], vals: &[u64], width: usize) -> Result<(), String> {
    let mut d = vec![AOp::Lit(17)];
    d.extend_from_slice(def);
    let mut w = Writer::new();
    w.enter(8, width);
    let id = w.def(&d);
    w.abbrev(id, 17, vals);
    w.unabbrev(3, &[1]);
    w.abbrev(id, 17, vals);
    c.transitions(4);
    c.trace();
    w.check()
}

fn fits(op: &AOp, bv: &[u64]) -> Vec<u64> {
    bv.iter().copied().filter(|v| expressible(std::slice::from_ref(op), &[*v])).collect()
}

/// Advance through a stream that uses something that needn't be supported: its entries come out as
/// encoded, up to an error, which there must be if `all` isn't set.
fn exact_or_error(b: &[u8], want: &[Entry], all: bool) -> Result<(), String> {
    let fail = |e: String| format!("{e} [stream {}]", hex(&b[..b.len().min(600)]));
    let mut s = Bitstream::from(b).map_err(|e| fail(format!("didn't open: {e:?}")))?.1;
    for (i, w) in want.iter().enumerate() {
        match s.advance() {
            Ok(e) if same(&e, w) => {}
            Ok(e) => return Err(fail(format!("entry {i}: expected {w:?} or an error, got {e:?}"))),
            Err(Error::Exhausted) => return Err(fail(format!("entry {i}: expected {w:?} or an error, got the end"))),
            Err(_) => return Ok(()),
        }
    }
    match s.advance() {
        Err(Error::Exhausted) if all => Ok(()),
        Err(Error::Exhausted) => Err(fail(format!("behind {} entries: expected an error, got the end", want.len()))),
        Err(e) if all => Err(fail(format!("behind {} entries: expected the end, got {e:?}", want.len()))),
        Err(_) => Ok(()),
        Ok(e) => Err(fail(format!("behind {} entries: expected {}, got {e:?}", want.len(), if all { "the end" } else { "an error" }))),
    }
}

/// What a width could be taken for.
fn narrowed(w: u64) -> Vec<usize> {
    let mut v: Vec<usize> = [w % 8, w % 16, w % 32, w % 64, w % 128, w & 0xff, w & 0xffff, w & 0xffff_ffff, w - 32, w - 64, 8, 16, 32, 64]
        .into_iter()
        .filter(|x| (1..=64).contains(x) && *x != w)
        .map(|x| x as usize)
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Widths that no machine integer has.
fn giants(c: &Ctx) -> Vec<u64> {
    let mut v: Vec<u64> = (65..c.q(140, 300)).collect();
    for k in 8..64 {
        for d in 0..c.q(8, 70) {
            v.push((1 << k) + d);
        }
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 31, u64::MAX - 63]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Operands wider than LLVM writes them.
fn wide_operands(c: &mut Ctx) {
    let bv = boundary_values();
    for w in 33..=64 {
        for op in [AOp::Fixed(w), AOp::Vbr(w)] {
            c.case(
                || format!("{op:?}"),
                |c| {
                    for v in fits(&op, &bv) {
                        for (def, vals) in
                            [(vec![op.clone()], vec![v]), (vec![AOp::Lit(1), op.clone(), op.clone()], vec![1, v, 3]), (vec![AOp::Lit(1), array(op.clone())], vec![1, 3, v, 5])]
                        {
                            for width in [3, 4, 7] {
                                let mut w = Writer::new();
                                w.enter(8, width);
                                let id = w.def(&def);
                                w.abbrev(id, vals[0], &vals[1..]);
                                w.unabbrev(9, &[9]);
                                let (b, want) = w.done();
                                c.transitions(1);
                                c.trace();
                                exact_or_error(&b, &want, true)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Nothing comes out of a record with an operand that doesn't fit, whatever its width could be
    // taken for.
    for w in giants(c) {
        c.case(
            || format!("operands of width {w}"),
            |c| {
                for taken in narrowed(w) {
                    for fixed in [true, false] {
                        if !fixed && taken == 1 {
                            continue;
                        }
                        let op = |w: u64| if fixed { AOp::Fixed(w) } else { AOp::Vbr(w) };
                        for (def, as_, vals) in [
                            (vec![op(w)], vec![op(taken as u64)], vec![1]),
                            (vec![AOp::Lit(1), op(w)], vec![AOp::Lit(1), op(taken as u64)], vec![1, 1]),
                            (vec![AOp::Lit(1), array(op(w))], vec![AOp::Lit(1), array(op(taken as u64))], vec![1, 1, 0, 1]),
                        ] {
                            let mut s = Writer::new();
                            s.enter(8, 3);
                            s.def(&def);
                            s.scopes.last_mut().unwrap().abbrevs = vec![as_];
                            s.abbrev(4, vals[0], &vals[1..]);
                            s.unabbrev(9, &[9]);
                            s.end();
                            let want = [s.want[0].clone()];
                            let mut b = s.w.finish();
                            b.resize(b.len() + 512, 0);
                            c.transitions(1);
                            c.trace();
                            exact_or_error(&b, &want, false)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// Abbreviation IDs wider than LLVM writes them.
fn wide_ids(c: &mut Ctx) {
    for width in 33..=64 {
        c.case(
            || format!("abbreviation IDs of {width} bits"),
            |c| {
                let mut w = Writer::new();
                w.enter(8, width);
                w.unabbrev(1, &[2]);
                let id = w.def(&[AOp::Lit(5), AOp::Fixed(3)]);
                w.abbrev(id, 5, &[7]);
                w.enter(9, 3);
                w.unabbrev(6, &[]);
                w.end();
                w.enter(8, width);
                w.unabbrev(6, &[1, 2, 3]);
                w.end();
                w.unabbrev(3, &[4]);
                let open = w.clone();
                let (b, want) = w.done();
                c.transitions(1);
                c.trace();
                exact_or_error(&b, &want, true)?;
                // IDs without a definition, among them those that another one could be taken for.
                let top = if width == 64 { u64::MAX } else { (1 << width) - 1 };
                let mut ids = vec![5, 6, top];
                for k in 3..width {
                    for d in 0..6 {
                        ids.push((1 << k) + d);
                        ids.push(top - (1 << k) + d);
                    }
                }
                for id in ids {
                    if id < 5 || id > top {
                        continue;
                    }
                    let mut w = open.clone();
                    let want = w.want.clone();
                    w.abbrev_id(id);
                    w.w.put(0, 128);
                    w.w.align32();
                    c.transitions(1);
                    c.trace();
                    exact_or_error(&w.w.finish(), &want, false)?;
                }
                Ok(())
            },
        );
    }
    for w in giants(c) {
        c.case(
            || format!("abbreviation IDs of {w} bits"),
            |c| {
                for taken in narrowed(w).into_iter().filter(|t| *t > 1) {
                    for k in 0..4 {
                        let mut s = Writer::new();
                        s.enter(7, 3);
                        s.unabbrev(1, &[]);
                        s.abbrev_id(1);
                        s.w.vbr(8, 8);
                        s.w.vbr(w, 4);
                        s.w.align32();
                        s.w.put(8, 32);
                        let mut want = s.want.clone();
                        want.push(Entry::Block { id: 8, len: 32 });
                        s.w.put([3, 0, 2, 1][k], taken);
                        match k {
                            0 => {
                                s.w.vbr(7, 6);
                                s.w.vbr(0, 6);
                            }
                            2 => put_def(&mut s.w, &[AOp::Lit(1)]),
                            3 => {
                                s.w.vbr(9, 8);
                                s.w.vbr(3, 4);
                            }
                            _ => {}
                        }
                        let mut b = s.w.finish();
                        b.resize(b.len().div_ceil(4) * 4 + 512, 0);
                        c.transitions(1);
                        c.trace();
                        let e = exact_or_error(&b, &want, false);
                        // The block's entry may come out, but it needn't.
                        if let Err(e) = e {
                            want.pop();
                            exact_or_error(&b, &want, false).map_err(|_| e)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

pub fn b03(c: &mut Ctx) {
    wide_operands(c);
    let bv = boundary_values();
    let mut scalars = vec![AOp::Char6];
    scalars.extend((1..=32).map(AOp::Fixed));
    scalars.extend((2..=32).map(AOp::Vbr));
    // All scalar operands, with all boundary values, at all offsets.
    for op in &scalars {
        let mut vals = fits(op, &bv);
        if *op == AOp::Char6 {
            vals = CHAR6.iter().map(|c| *c as u64).collect();
        }
        if let AOp::Fixed(w @ 1..=10) = op {
            vals = (0..1 << w).collect();
        }
        for off in 0..64 {
            c.case(
                || format!("{op:?} at bit offset {off}"),
                |c| {
                    for v in &vals {
                        direct(c, std::slice::from_ref(op), &[*v], off)?;
                    }
                    Ok(())
                },
            );
        }
        for width in 3..=32 {
            c.case(
                || format!("{op:?} in a stream with width {width}"),
                |c| {
                    for v in &vals {
                        streamed(c, std::slice::from_ref(op), &[*v], width)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // Literals.
    for off in 0..64 {
        c.case(
            || format!("literals at bit offset {off}"),
            |c| {
                for v in bv.iter().copied().chain(0..1100) {
                    direct(c, &[AOp::Lit(v)], &[v], off)?;
                    direct(c, &[AOp::Lit(v), AOp::Fixed(5), AOp::Lit(v ^ 1)], &[v, 21, v ^ 1], off)?;
                }
                Ok(())
            },
        );
    }
    // Arrays of all elements and blobs, of all lengths, at all offsets.
    let mut lens: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 130, 255, 256, 257, 1023, 1024, 1025]).collect();
    if c.thorough() {
        lens = (0..=300).chain([1023, 1024, 1025, 4096, 32767, 32768, 70000]).collect();
    }
    for op in &scalars {
        let vals = fits(op, if *op == AOp::Char6 { &[97, 122, 65, 90, 48, 57, 46, 95] } else { &bv });
        for off in 0..64 {
            c.case(
                || format!("arrays of {op:?} at bit offset {off}"),
                |c| {
                    for n in &lens {
                        for s in [0, 3] {
                            let v: Vec<u64> = (0..*n).map(|i| vals[(i * 5 + s) % vals.len()]).collect();
                            direct(c, &[array(op.clone())], &v, off)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("arrays of {op:?} in a stream"),
            |c| {
                for n in &lens {
                    for width in [3, 4, 7, 32] {
                        let v: Vec<u64> = (0..*n).map(|i| vals[(i * 5 + 1) % vals.len()]).collect();
                        streamed(c, &[array(op.clone())], &v, width)?;
                    }
                }
                Ok(())
            },
        );
    }
    for off in 0..64 {
        c.case(
            || format!("blobs at bit offset {off}"),
            |c| {
                for n in &lens {
                    for s in [0, 1, 128, 255] {
                        let v: Vec<u64> = (0..*n).map(|i| (i as u64 * 37 + s) % 256).collect();
                        direct(c, &[AOp::Blob], &v, off)?;
                    }
                }
                Ok(())
            },
        );
    }
    c.case(
        || "blobs in a stream".into(),
        |c| {
            for n in &lens {
                for width in 3..=32 {
                    let v: Vec<u64> = (0..*n).map(|i| (i as u64 * 37 + 11) % 256).collect();
                    streamed(c, &[AOp::Blob], &v, width)?;
                    streamed(c, &[AOp::Fixed(width as u64), AOp::Blob], &[&[5], &v[..]].concat(), width)?;
                }
            }
            Ok(())
        },
    );
    // Long ones.
    for n in BIG {
        c.case(
            || format!("arrays and blobs of {n} elements"),
            |c| {
                let bytes: Vec<u64> = (0..n).map(|i| (i * 7 + i / 251) % 256).collect();
                let chars: Vec<u64> = bytes.iter().map(|v| 97 + v % 26).collect();
                for off in [0, 13, 31, 63] {
                    direct(c, &[AOp::Blob], &bytes, off)?;
                    direct(c, &[array(AOp::Fixed(8))], &bytes, off)?;
                    direct(c, &[array(AOp::Vbr(4))], &bytes, off)?;
                    direct(c, &[array(AOp::Char6)], &chars, off)?;
                }
                streamed(c, &[AOp::Blob], &bytes, 5)?;
                streamed(c, &[array(AOp::Fixed(9))], &bytes, 5)?;
                streamed(c, &[array(AOp::Vbr(6))], &bytes, 5)
            },
        );
    }
    // Every abbreviation ID with every number of fields.
    for before in (0..c.q(40, 70u64)).chain([123, 124, 125, 251, 252, 253]) {
        c.case(
            || format!("records of every length behind {before} other definitions"),
            |c| {
                for n in (0..c.q(72, 140u64)).chain([255, 256, 257, 1024]) {
                    for (registered, depth, code) in [(false, 1, 17), (true, 1, 0), (false, 3, 1 << 33), (true, 2, 21)] {
                        let fields: Vec<u64> = (0..n).map(|i| 97 + (i * 11 + n) % 26).collect();
                        let scalars: Def = fields.iter().map(|_| AOp::Fixed(7)).collect();
                        let tails = [vec![array(AOp::Fixed(7))], vec![array(AOp::Vbr(4))], vec![array(AOp::Char6)], vec![AOp::Blob], scalars];
                        let defs: Vec<Def> = tails.iter().map(|t| [&[AOp::Vbr(6)][..], t].concat()).collect();
                        let others: Vec<Def> = (0..before).map(|k| vec![AOp::Lit(k), AOp::Fixed(1 + k % 32)]).collect();
                        let mut w = Writer::new();
                        if registered {
                            w.blockinfo(3, &[(8, [&others[..], &defs].concat())]);
                        }
                        for k in 0..depth {
                            w.enter(8 + (depth - 1 - k), 10);
                        }
                        if !registered {
                            for d in others.iter().chain(&defs) {
                                w.def(d);
                            }
                        }
                        for k in 0..defs.len() as u64 {
                            w.abbrev(4 + before + k, code, &fields);
                            c.transitions(1);
                        }
                        w.unabbrev(code, &fields);
                        c.trace();
                        w.check()?;
                    }
                }
                Ok(())
            },
        );
    }
    // All single bytes in a blob, and as blob contents at every place of a word.
    c.case(
        || "all bytes in blobs".into(),
        |c| {
            for x in 0..256 {
                for n in 1..=9 {
                    for i in 0..n {
                        let mut v = vec![0; n];
                        v[i] = x;
                        direct(c, &[AOp::Blob], &v, i)?;
                    }
                }
            }
            Ok(())
        },
    );
    // All sequences of operands.
    let ops = [AOp::Lit(0), AOp::Lit(u64::MAX), AOp::Fixed(1), AOp::Fixed(8), AOp::Fixed(31), AOp::Fixed(32), AOp::Vbr(2), AOp::Vbr(6), AOp::Vbr(32), AOp::Char6];
    let tails = [AOp::Blob, array(AOp::Fixed(1)), array(AOp::Fixed(7)), array(AOp::Vbr(6)), array(AOp::Char6)];
    let max = c.q(4, 5);
    let mut seqs: Vec<Def> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = seqs.len();
        for i in from..to {
            for o in &ops {
                let mut d = seqs[i].clone();
                d.push(o.clone());
                seqs.push(d);
            }
        }
        from = to;
    }
    let pick = |op: &AOp, k: usize| -> u64 {
        match op {
            AOp::Lit(v) => *v,
            AOp::Fixed(w) => [1, (1 << w) - 1, 0][k],
            AOp::Vbr(w) => [1 << (w - 1), u64::MAX, 0][k],
            AOp::Char6 => [97, 95, 90][k],
            _ => unreachable!(),
        }
    };
    for chunk in seqs.chunks(64) {
        c.case(
            || format!("sequences of operands from {:?} on", chunk[0]),
            |c| {
                for seq in chunk {
                    for k in 0..3 {
                        let vals: Vec<u64> = seq.iter().enumerate().map(|(i, o)| pick(o, (i + k) % 3)).collect();
                        let offs: &[usize] = if seq.len() <= 2 { &[0, 1, 13, 31, 32, 47, 63] } else { &[k * 21] };
                        for off in offs {
                            if !seq.is_empty() {
                                direct(c, seq, &vals, *off)?;
                            }
                            for t in &tails {
                                for n in [0, 1, 3] {
                                    let mut d = seq.clone();
                                    d.push(t.clone());
                                    let mut v = vals.clone();
                                    let e = match t {
                                        AOp::Array(e) => pick(e, k),
                                        _ => 200 + k as u64,
                                    };
                                    v.extend(std::iter::repeat_n(e, n));
                                    direct(c, &d, &v, *off)?;
                                }
                            }
                        }
                        if !seq.is_empty() {
                            streamed(c, seq, &vals, 3 + k)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Definitions with many operands.
    c.case(
        || "long definitions".into(),
        |c| {
            for n in (1..=70).chain([255, 256, 257, 1000, 65535, 65536, 65537]) {
                let d: Def = (0..n).map(|i| ops[(i * 3) % ops.len()].clone()).collect();
                let v: Vec<u64> = d.iter().enumerate().map(|(i, o)| pick(o, i % 3)).collect();
                direct(c, &d, &v, n % 64)?;
                streamed(c, &d, &v, 3)?;
                let mut d2 = d.clone();
                d2.push(array(AOp::Vbr(6)));
                direct(c, &d2, &v, n % 64)?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// A corpus of streams that use everything

/// Well-formed streams that together exercise every construct.
pub fn corpus() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    let mut add = |n, w: Writer| v.push((n, w.done().0));
    let mut w = Writer::new();
    add("empty", w.clone());
    w.enter(8, 2);
    add("an empty block", w.clone());
    w.unabbrev(1, &[2, 3]);
    add("a record", w.clone());
    w.enter(9, 3);
    w.unabbrev(40, &[1 << 40]);
    w.end();
    w.unabbrev(2, &[]);
    w.end();
    w.enter(9, 5);
    add("two blocks", w);

    let mut w = Writer::new();
    w.enter(8, 3);
    w.def(&[AOp::Lit(5), AOp::Fixed(3), AOp::Vbr(4)]);
    w.abbrev(4, 5, &[6, 300]);
    w.abbrev(4, 5, &[0, 0]);
    add("a scalar abbreviation", w);

    let mut w = Writer::new();
    w.enter(8, 4);
    w.def(&[AOp::Vbr(6), array(AOp::Char6)]);
    w.def(&[AOp::Fixed(4), array(AOp::Fixed(7))]);
    w.abbrev(4, 40, b"abZ_9".map(u64::from).as_slice());
    w.abbrev(5, 7, &[1, 127, 64]);
    w.abbrev(4, 0, &[]);
    add("array abbreviations", w);

    let mut w = Writer::new();
    w.enter(23, 3);
    w.def(&[AOp::Lit(1), AOp::Blob]);
    w.abbrev(4, 1, &[1, 255, 0, 128, 7]);
    w.abbrev(4, 1, &[]);
    w.abbrev(4, 1, &[1, 2, 3, 4]);
    w.unabbrev(2, &[3]);
    add("blobs", w);

    let mut w = Writer::new();
    w.blockinfo(2, &[(8, vec![vec![AOp::Lit(1), AOp::Vbr(6)]]), (9, vec![vec![AOp::Lit(2), AOp::Fixed(9)], vec![AOp::Vbr(3)]])]);
    w.enter(8, 3);
    w.abbrev(4, 1, &[100]);
    w.enter(9, 4);
    w.def(&[AOp::Lit(3), array(AOp::Vbr(3))]);
    w.abbrev(4, 2, &[500]);
    w.abbrev(6, 3, &[1, 2, 3]);
    w.abbrev(5, 9, &[]);
    w.end();
    w.abbrev(4, 1, &[5]);
    add("BLOCKINFO", w);

    let mut w = Writer::new();
    w.enter(8, 3);
    w.unabbrev(0, &[]);
    w.blockinfo(4, &[(8, vec![vec![AOp::Lit(1), AOp::Vbr(6)]])]);
    w.unabbrev(1, &[]);
    w.enter(8, 3);
    w.abbrev(4, 1, &[100]);
    w.enter(8, 4);
    w.def(&[AOp::Lit(7), AOp::Char6]);
    w.abbrev(5, 7, &[b'x' as u64]);
    w.abbrev(4, 1, &[8]);
    add("nested BLOCKINFO", w);
    v
}

/// Streams that continue the corpus: every prefix of tokens, left open, as a context.
fn contexts() -> Vec<(String, Writer)> {
    let mut v = vec![];
    let mut w = Writer::new();
    v.push(("at the start".to_string(), w.clone()));
    w.enter(8, 3);
    v.push(("in a block".into(), w.clone()));
    w.unabbrev(1, &[2]);
    v.push(("behind a record".into(), w.clone()));
    w.def(&[AOp::Lit(5), AOp::Fixed(3)]);
    v.push(("behind a definition".into(), w.clone()));
    w.abbrev(4, 5, &[2]);
    v.push(("behind an abbreviated record".into(), w.clone()));
    w.enter(8, 4);
    v.push(("in a nested block".into(), w.clone()));
    w.end();
    v.push(("behind a nested block".into(), w.clone()));
    w.end();
    v.push(("behind a block".into(), w.clone()));
    w.blockinfo(2, &[(8, vec![vec![AOp::Lit(1), AOp::Vbr(6)]]), (9, vec![vec![AOp::Lit(2), array(AOp::Char6)]])]);
    v.push(("behind BLOCKINFO".into(), w.clone()));
    w.enter(8, 3);
    v.push(("in a block with a registration".into(), w.clone()));
    w.abbrev(4, 1, &[77]);
    w.enter(9, 3);
    v.push(("in a nested block with a registration".into(), w.clone()));
    w.def(&[AOp::Lit(3), AOp::Blob]);
    w.abbrev(5, 3, &[1, 2, 3]);
    v.push(("behind a blob".into(), w.clone()));
    w.enter(10, 9);
    v.push(("in a block of width 9".into(), w.clone()));
    w.enter(10, 32);
    v.push(("in a block of width 32".into(), w.clone()));
    let mut w = Writer::new();
    w.enter(0, 3);
    v.push(("in BLOCKINFO".into(), w.clone()));
    w.unabbrev(2, &[97]);
    v.push(("behind a name in BLOCKINFO".into(), w.clone()));
    w.setbid(8);
    v.push(("in BLOCKINFO behind SETBID".into(), w.clone()));
    w.def(&[AOp::Lit(5), AOp::Fixed(3)]);
    v.push(("in BLOCKINFO behind a definition".into(), w.clone()));
    w.end();
    w.enter(8, 4);
    w.enter(0, 5);
    v.push(("in a nested BLOCKINFO".into(), w.clone()));
    v
}

// ---------------------------------------------------------------------------------------------
// B04

/// Streams with the same block IDs, abbreviation IDs and codes, which mean different things in each.
fn rivals() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    let mut add = |n, w: Writer| v.push((n, w.cut().0));
    let mut w = Writer::new();
    w.enter(8, 3);
    w.def(&[AOp::Lit(5), AOp::Fixed(3)]);
    w.abbrev(4, 5, &[6]);
    w.unabbrev(5, &[1 << 40, 7]);
    w.end();
    add("a definition", w);

    let mut w = Writer::new();
    w.enter(8, 4);
    w.def(&[AOp::Vbr(6), array(AOp::Char6)]);
    w.abbrev(4, 40, b"a_9".map(u64::from).as_slice());
    w.end();
    w.enter(8, 4);
    add("another definition", w);

    let mut w = Writer::new();
    w.blockinfo(2, &[(8, vec![vec![AOp::Lit(1), AOp::Vbr(6)], vec![AOp::Lit(1), AOp::Fixed(9)]])]);
    w.enter(8, 3);
    w.abbrev(4, 1, &[100]);
    w.abbrev(5, 1, &[400]);
    w.end();
    add("registrations", w);

    let mut w = Writer::new();
    w.blockinfo(5, &[(9, vec![vec![AOp::Lit(2), AOp::Blob]]), (8, vec![vec![AOp::Fixed(7), AOp::Fixed(9)]])]);
    w.enter(8, 5);
    w.abbrev(4, 1, &[100]);
    w.enter(9, 3);
    w.abbrev(4, 2, &[1, 2, 255]);
    add("other registrations", w);

    let mut w = Writer::new();
    w.enter(8, 3);
    w.unabbrev(1, &[3]);
    w.abbrev_id(4);
    add("an undefined abbreviation", w);

    let mut w = Writer::with_magic(0x1234_5678);
    w.enter(9, 3);
    w.enter(8, 6);
    w.enter(9, 2);
    w.end();
    w.unabbrev(0, &[]);
    add("blocks", w);

    add("nothing", Writer::new());

    let mut w = Writer::new();
    w.abbrev_id(0);
    add("an end of nothing", w);

    let n = v.len();
    for k in [0, 2] {
        let inner = v[k].1.clone();
        v.push((["wrapped", "", "wrapped at another place"][k], wrap(0, 20 + 4 * k as u32, inner.len() as u32, 7, &vec![255; 4 * k], &inner, &[9; 3])));
    }
    assert_eq!(v.len(), n + 2);
    v
}

/// What a stream has to yield: the wrapper, the magic, the entries and the end.
struct Script<'a> {
    bytes: &'a [u8],
    wrapper: Option<[u32; 4]>,
    magic: u32,
    want: Vec<Entry>,
    term: Term,
}

impl<'a> Script<'a> {
    fn new(bytes: &'a [u8]) -> Self {
        let word = |k: usize| u32::from_le_bytes(bytes[4 * k..4 * k + 4].try_into().unwrap());
        let (wrapper, inner) = match word(0) == WRAPPER {
            true => (Some([word(1), word(2), word(3), word(4)]), &bytes[word(2) as usize..(word(2) + word(3)) as usize]),
            false => (None, bytes),
        };
        let (want, term) = ref_parse(inner);
        let magic = u32::from_le_bytes(inner[..4].try_into().unwrap());
        Script { bytes, wrapper, magic, want, term }
    }
    /// Opening it, every entry, and the end.
    fn steps(&self) -> usize {
        self.want.len() + 2
    }
    fn open<T: AsRef<[u8]>>(&self, source: T) -> Result<Bitstream<T>, String> {
        let (w, s) = Bitstream::from(source).map_err(|e| format!("didn't open: {e:?}"))?;
        let w = w.map(|w| [w.version, w.offset, w.size, w.cpu_type]);
        if w != self.wrapper || s.magic != self.magic {
            return Err(format!("opened as {w:?} with magic {:#x}, expected {:?} and {:#x}", s.magic, self.wrapper, self.magic));
        }
        Ok(s)
    }
    /// One step of a parser. The last one drops it.
    fn step(&self, k: usize, parser: &mut Option<Bitstream<&'a [u8]>>) -> Result<(), String> {
        let Some(s) = parser else {
            *parser = Some(self.open(self.bytes)?);
            return Ok(());
        };
        match self.want.get(k - 1) {
            Some(w) => match s.advance() {
                Ok(e) if same(&e, w) => Ok(()),
                e => Err(format!("entry {}: expected {w:?}, got {e:?}", k - 1)),
            },
            None => {
                let r = follow(s, &[], self.term);
                *parser = None;
                r
            }
        }
    }
}

/// Run every interleaving of the steps of some parsers (the first `n[i]` of each), dropping each behind its last step.
fn interleave(c: &Ctx, scripts: &[&Script], n: &[usize], rest: bool) -> Result<(), String> {
    fn run(scripts: &[&Script], n: &[usize], order: &[usize], rest: bool) -> Result<(), String> {
        let mut parsers: Vec<Option<Bitstream<&[u8]>>> = scripts.iter().map(|_| None).collect();
        let mut at = vec![0; scripts.len()];
        for &i in order {
            scripts[i].step(at[i], &mut parsers[i]).map_err(|e| format!("{e}, parser {i} in the order {order:?}"))?;
            at[i] += 1;
            if at[i] == n[i] {
                parsers[i] = None;
            }
        }
        // Afterwards, everything is the same as before.
        if rest {
            for (i, s) in scripts.iter().enumerate() {
                follow(&mut s.open(s.bytes)?, &s.want, s.term).map_err(|e| format!("{e}, parser {i} again after the order {order:?}"))?;
            }
        }
        Ok(())
    }
    fn go(c: &Ctx, scripts: &[&Script], n: &[usize], left: &mut Vec<usize>, order: &mut Vec<usize>, rest: bool) -> Result<(), String> {
        if left.iter().all(|l| *l == 0) {
            c.step();
            c.trace();
            c.transitions(order.len() as u64);
            return run(scripts, n, order, rest);
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                order.push(i);
                go(c, scripts, n, left, order, rest)?;
                order.pop();
                left[i] += 1;
            }
        }
        Ok(())
    }
    go(c, scripts, n, &mut n.to_vec(), &mut vec![], rest)
}

/// A source that keeps its bytes at some distance from an aligned address.
struct Unaligned(Vec<u64>, usize, usize);

impl Unaligned {
    fn new(b: &[u8], off: usize) -> Self {
        let bytes: Vec<u8> = std::iter::repeat(0xee).take(off).chain(b.iter().copied()).chain([0xdd; 8]).collect();
        let words = bytes.chunks(8).map(|c| c.iter().rev().fold(0, |w, b| w << 8 | u64::from(*b))).collect();
        Unaligned(words, off, b.len())
    }
}

impl AsRef<[u8]> for Unaligned {
    fn as_ref(&self) -> &[u8] {
        // Safety: any initialized memory is valid as bytes.
        let all = unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.0.len() * 8) };
        &all[self.1..self.1 + self.2]
    }
}

pub fn b04(c: &mut Ctx) {
    let streams = rivals();
    let scripts: Vec<(&str, Script)> = streams.iter().map(|(n, b)| (*n, Script::new(b))).collect();
    for (an, a) in &scripts {
        for (bn, b) in &scripts {
            c.case(
                || format!("every interleaving of {an} and {bn}"),
                |c| {
                    c.state(&(an, bn));
                    let (na, nb) = (a.steps(), b.steps());
                    interleave(c, &[a, b], &[na, nb], false)?;
                    // One of them is dropped early.
                    for k in 1..na {
                        interleave(c, &[a, b], &[k, nb], true)?;
                    }
                    Ok(())
                },
            );
        }
    }
    let max = c.q(4, 5);
    for (an, a) in &scripts {
        for (bn, b) in &scripts {
            c.case(
                || format!("every interleaving of the first {max} steps of {an}, {bn} and every third one"),
                |c| {
                    for (cn, d) in &scripts {
                        c.state(&(an, bn, cn));
                        let all = [a, b, d];
                        interleave(c, &all, &all.map(|s| s.steps().min(max)), false)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // One after the other.
    let all: Vec<(&str, Vec<u8>)> = corpus().into_iter().chain(streams.clone()).collect();
    let all: Vec<(&str, Script)> = all.iter().map(|(n, b)| (*n, Script::new(b))).collect();
    for (an, a) in &all {
        c.case(
            || format!("{an} and then any two others"),
            |c| {
                for (_, b) in &all {
                    for (_, d) in &all {
                        c.trace();
                        c.transitions(3);
                        for s in [a, b, d] {
                            follow(&mut s.open(s.bytes)?, &s.want, s.term)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Every kind of source, at every address, with every entry point.
    for (name, s) in &all {
        c.case(
            || format!("{name} from every kind of source"),
            |c| {
                fn all_ways<T: AsRef<[u8]>>(c: &Ctx, s: &Script, what: &str, make: impl Fn() -> T) -> Result<(), String> {
                    let r = (|| {
                        follow(&mut s.open(make())?, &s.want, s.term)?;
                        let mut other = match s.wrapper {
                            None => Bitstream::from_raw(make()).map_err(|e| format!("{e:?}"))?,
                            Some(_) => Bitstream::from_wrapped(make()).map_err(|e| format!("{e:?}"))?.1,
                        };
                        follow(&mut other, &s.want, s.term)
                    })();
                    c.trace();
                    c.transitions(2);
                    r.map_err(|e| format!("{e} [{what}]"))
                }
                let b = s.bytes;
                all_ways(c, s, "a slice", || b)?;
                all_ways(c, s, "a vector", || b.to_vec())?;
                let v = b.to_vec();
                all_ways(c, s, "a borrowed vector", || &v)?;
                all_ways(c, s, "a twice borrowed slice", || &b)?;
                all_ways(c, s, "a vector with spare room", || {
                    let mut v = Vec::with_capacity(b.len() + 100);
                    v.extend_from_slice(b);
                    v.extend_from_slice(&[255; 50]);
                    v.truncate(b.len());
                    v
                })?;
                all_ways(c, s, "a box", || b.to_vec().into_boxed_slice())?;
                all_ways(c, s, "a counted reference", || std::rc::Rc::<[u8]>::from(b))?;
                all_ways(c, s, "a shared reference", || std::sync::Arc::<[u8]>::from(b))?;
                all_ways(c, s, "either a borrowed slice", || std::borrow::Cow::Borrowed(b))?;
                all_ways(c, s, "or a vector", || std::borrow::Cow::Owned::<[u8]>(b.to_vec()))?;
                for off in 0..=c.q(64, 256) {
                    all_ways(c, s, "an unaligned source", || Unaligned::new(b, off))?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// B05

type Violation = (&'static str, fn(&mut Writer) -> bool);

/// Violations of the format; each returns whether it applies in the writer's context.
const VIOLATIONS: &[Violation] = &[
    ("unmatched end", |w| {
        let at = w.scopes.is_empty();
        if at {
            w.abbrev_id(0);
        }
        at
    }),
    ("record outside of a block", |w| {
        let at = w.scopes.is_empty();
        if at {
            w.abbrev_id(3);
            w.w.vbr(1, 6);
            w.w.vbr(0, 6);
        }
        at
    }),
    ("definition outside of a block", |w| {
        let at = w.scopes.is_empty();
        if at {
            w.abbrev_id(2);
            put_def(&mut w.w, &[AOp::Lit(1), AOp::Fixed(1)]);
        }
        at
    }),
    ("undefined abbreviation (the first)", |w| {
        let n = w.scopes.last().map_or(0, |s| s.abbrevs.len()) as u64 + 4;
        let at = n >> w.width() == 0 && !w.scopes.is_empty();
        if at {
            w.abbrev_id(n);
        }
        at
    }),
    ("undefined abbreviation (the last)", |w| {
        let at = !w.scopes.is_empty() && w.width() > 2;
        if at {
            let n = (1u64 << w.width()) - 1;
            if (n as usize) < w.scopes.last().unwrap().abbrevs.len() + 4 {
                return false;
            }
            w.abbrev_id(n);
        }
        at
    }),
    ("no operands", |w| {
        w.abbrev_id(2);
        w.w.vbr(0, 5);
        true
    }),
    ("no operands, in two chunks", |w| {
        w.abbrev_id(2);
        w.w.vbr_padded(0, 5, 1);
        true
    }),
    ("encoding 0", |w| {
        w.abbrev_id(2);
        w.w.vbr(1, 5);
        w.w.put(0, 4);
        true
    }),
    ("encoding 6", |w| {
        w.abbrev_id(2);
        w.w.vbr(1, 5);
        w.w.put(6 << 1, 4);
        true
    }),
    ("encoding 7", |w| {
        w.abbrev_id(2);
        w.w.vbr(2, 5);
        put_op(&mut w.w, &AOp::Lit(3));
        w.w.put(7 << 1, 4);
        true
    }),
    ("array as the only operand", |w| bad_def(w, 1, &[array(AOp::Fixed(3))])),
    ("array with its element missing", |w| bad_def(w, 2, &[AOp::Lit(1), array(AOp::Fixed(3))])),
    ("array before another operand", |w| bad_def(w, 4, &[AOp::Lit(1), array(AOp::Fixed(3)), AOp::Lit(2)])),
    ("array before two other operands", |w| bad_def(w, 5, &[AOp::Lit(1), array(AOp::Fixed(3)), AOp::Char6, AOp::Lit(2)])),
    ("array before a blob", |w| bad_def(w, 4, &[AOp::Lit(1), array(AOp::Char6), AOp::Blob])),
    ("blob before another operand", |w| bad_def(w, 3, &[AOp::Lit(1), AOp::Blob, AOp::Lit(2)])),
    ("blob before a blob", |w| bad_def(w, 3, &[AOp::Lit(1), AOp::Blob, AOp::Blob])),
    ("blob before an array", |w| bad_def(w, 4, &[AOp::Lit(1), AOp::Blob, array(AOp::Fixed(3))])),
    ("array of literals", |w| bad_def(w, 3, &[AOp::Lit(1), array(AOp::Lit(3))])),
    ("array of literals 2", |w| bad_def(w, 2, &[array(AOp::Lit(1))])),
    ("array of arrays", |w| bad_def(w, 3, &[AOp::Lit(1), array(array(AOp::Fixed(3)))])),
    ("array of arrays 2", |w| bad_def(w, 4, &[AOp::Lit(1), array(array(AOp::Fixed(3)))])),
    ("array of blobs", |w| bad_def(w, 3, &[AOp::Lit(1), array(AOp::Blob)])),
    ("array of encoding 0", |w| {
        bad_def(w, 3, &[AOp::Lit(1)]);
        w.w.put(3 << 1, 4);
        w.w.put(0, 4);
        true
    }),
    ("array of encoding 6", |w| {
        bad_def(w, 3, &[AOp::Lit(1)]);
        w.w.put(3 << 1, 4);
        w.w.put(6 << 1, 4);
        true
    }),
    ("array of encoding 7", |w| {
        bad_def(w, 3, &[AOp::Lit(1)]);
        w.w.put(3 << 1, 4);
        w.w.put(7 << 1, 4);
        true
    }),
    ("zero width", |w| bad_enter(w, 9, 0, 0)),
    ("zero width of BLOCKINFO", |w| bad_enter(w, 0, 0, 0)),
    ("zero width in two chunks", |w| bad_enter(w, 9, 0, 1)),
    ("no block ID selected", |w| {
        let at = w.in_info() && w.bid.is_none();
        if at {
            w.abbrev_id(2);
            put_def(&mut w.w, &[AOp::Lit(1), AOp::Fixed(1)]);
        }
        at
    }),
    ("SETBID without a block ID", |w| {
        let at = w.in_info();
        if at {
            w.abbrev_id(3);
            w.w.vbr(1, 6);
            w.w.vbr(0, 6);
        }
        at
    }),
    ("record without a code (array)", |w| empty_code(w, array(AOp::Fixed(8)))),
    ("record without a code (blob)", |w| empty_code(w, AOp::Blob)),
    ("oversized VBR as a block ID", |w| {
        let at = !w.in_info();
        if at {
            w.abbrev_id(1);
            for _ in 0..9 {
                w.w.put(0xff, 8);
            }
            w.w.put(2, 8);
        }
        at
    }),
    ("oversized VBR as a field", |w| {
        let at = !w.scopes.is_empty();
        if at {
            w.abbrev_id(3);
            w.w.vbr(2, 6);
            w.w.vbr(1, 6);
            for _ in 0..12 {
                w.w.put(0x20, 6);
            }
            w.w.put(0x10, 6);
        }
        at
    }),
    ("oversized VBR as a code", |w| {
        let at = !w.scopes.is_empty();
        if at {
            w.abbrev_id(3);
            for _ in 0..13 {
                w.w.put(0x21, 6);
            }
            w.w.put(1, 6);
        }
        at
    }),
    ("oversized VBR as a length", |w| {
        let at = !w.scopes.is_empty();
        if at {
            w.abbrev_id(3);
            w.w.vbr(2, 6);
            for _ in 0..12 {
                w.w.put(0x20, 6);
            }
            w.w.put(0x10, 6);
        }
        at
    }),
];

/// A definition that claims `n` operands.
fn bad_def(w: &mut Writer, n: u64, ops: &[AOp]) -> bool {
    w.abbrev_id(2);
    w.w.vbr(n, 5);
    for o in ops {
        put_op(&mut w.w, o);
    }
    true
}

fn bad_enter(w: &mut Writer, id: u64, width: u64, pad: usize) -> bool {
    if w.in_info() {
        return false;
    }
    w.abbrev_id(1);
    w.w.vbr(id, 8);
    w.w.vbr_padded(width, 4, pad);
    w.w.align32();
    w.w.put(1, 32);
    true
}

fn empty_code(w: &mut Writer, op: AOp) -> bool {
    if w.scopes.is_empty() || w.in_info() || w.width() < 3 {
        return false;
    }
    let id = w.def(&[op.clone()]);
    if id >> w.width() != 0 {
        return false;
    }
    w.abbrev_id(id);
    w.w.vbr(0, 6);
    w.w.align32();
    true
}

/// Tails to put behind a violation.
fn tail(w: &mut Writer, k: usize) {
    match k {
        0 => w.w.align32(),
        1 => {
            for _ in 0..64 {
                w.w.put(0, 8);
            }
            w.w.align32();
        }
        2 => {
            while w.w.len % 32 != 0 {
                w.w.bit(true);
            }
            for _ in 0..16 {
                w.w.put(u64::MAX, 32);
            }
        }
        3 => {
            // What would be well-formed.
            while w.w.len % 32 != 0 {
                w.w.bit(false);
            }
            let width = w.width();
            w.w.put(1, width);
            w.w.vbr(8, 8);
            w.w.vbr(3, 4);
            w.w.align32();
            w.w.put(0, 32);
            w.w.put(3, 3);
            w.w.vbr(5, 6);
            w.w.vbr(0, 6);
            w.w.align32();
        }
        _ => unreachable!(),
    }
}

pub fn b05(c: &mut Ctx) {
    wide_ids(c);
    // Every violation in every context.
    for (name, ctx) in contexts() {
        for (what, f) in VIOLATIONS {
            c.case(
                || format!("{what}, {name}"),
                |c| {
                    for k in 0..4 {
                        let mut w = ctx.clone();
                        if !f(&mut w) {
                            return Ok(());
                        }
                        tail(&mut w, k);
                        c.transitions(1);
                        c.trace();
                        w.check_error(what)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // The reference leaves blocks in BLOCKINFO open, but definitions there need a SETBID of their own.
    for (name, ctx) in contexts() {
        if !ctx.in_info() {
            continue;
        }
        c.case(
            || format!("no block ID selected in a BLOCKINFO in another one, {name}"),
            |c| {
                for depth in 1..4 {
                    for k in 0..4 {
                        let mut w = ctx.clone();
                        for _ in 0..depth {
                            w.enter(0, 3);
                        }
                        w.abbrev_id(2);
                        put_def(&mut w.w, &[AOp::Lit(1), AOp::Fixed(1)]);
                        tail(&mut w, k);
                        w.w.align32();
                        c.transitions(1);
                        c.trace();
                        expect(&w.w.finish(), &w.want, Term::Error("no block ID selected"))?;
                    }
                }
                Ok(())
            },
        );
    }
    // Every violation behind every sequence of tokens.
    const TOKS: [Tok; 6] = [Tok::Enter(8, 3), Tok::Enter(0, 3), Tok::End, Tok::Def, Tok::SetBid(8), Tok::Rec(7, &[1])];
    explore(c, "violations", &TOKS, c.q(7, 8), 3, true, &|c, s, _| {
        for (what, f) in VIOLATIONS {
            let mut w = s.w.clone();
            if f(&mut w) {
                tail(&mut w, 1);
                c.transitions(1);
                c.trace();
                w.check_error(what)?;
            }
        }
        Ok(())
    });
    let f: &dyn Fn(&Ctx, &[u8]) -> Result<(), String> = &|c, b| {
        c.transitions(1);
        c.trace();
        let (want, term) = ref_parse(b);
        c.state(&(&want, format!("{term:?}")));
        expect(b, &want, term)
    };
    corruptions(c, f);
    short_payloads(c, f);
}

/// Every one- and two-bit corruption and every byte overwrite of the corpus.
fn corruptions(c: &mut Ctx, f: &dyn Fn(&Ctx, &[u8]) -> Result<(), String>) {
    for (name, b) in corpus() {
        let n = b.len() * 8;
        for i in 32..n {
            c.case(
                || format!("{name}: bit {i} flipped, and every other one"),
                |c| {
                    let mut x = b.clone();
                    x[i / 8] ^= 1 << (i % 8);
                    f(c, &x)?;
                    for j in i + 1..n {
                        x[j / 8] ^= 1 << (j % 8);
                        f(c, &x)?;
                        x[j / 8] ^= 1 << (j % 8);
                    }
                    Ok(())
                },
            );
        }
        for i in 4..b.len() {
            c.case(
                || format!("{name}: byte {i} overwritten"),
                |c| {
                    let mut x = b.clone();
                    for v in 0..=255 {
                        x[i] = v;
                        f(c, &x)?;
                        if c.thorough() && i + 1 < b.len() {
                            for u in 0..=255 {
                                x[i + 1] = u;
                                f(c, &x)?;
                            }
                            x[i + 1] = b[i + 1];
                        }
                    }
                    Ok(())
                },
            );
        }
        if c.thorough() && b.len() < 60 {
            for i in 32..n {
                c.case(
                    || format!("{name}: bit {i} flipped, and every other two"),
                    |c| {
                        let mut x = b.clone();
                        x[i / 8] ^= 1 << (i % 8);
                        for j in i + 1..n {
                            c.step();
                            x[j / 8] ^= 1 << (j % 8);
                            for k in j + 1..n {
                                x[k / 8] ^= 1 << (k % 8);
                                f(c, &x)?;
                                x[k / 8] ^= 1 << (k % 8);
                            }
                            x[j / 8] ^= 1 << (j % 8);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// In every context, every string of 18 (23) bits.
fn short_payloads(c: &mut Ctx, f: &dyn Fn(&Ctx, &[u8]) -> Result<(), String>) {
    let n = c.q(18, 23);
    for (name, w) in contexts() {
        for fill in [0u8, 0xff] {
            for hi in 0..1u64 << (n - 8) {
                if hi % 16 != 0 {
                    continue;
                }
                c.case(
                    || format!("{name}: every string of {n} bits from {:#x} on, then {fill:#x}", hi << 8),
                    |c| {
                        for v in hi << 8..(hi + 16) << 8 {
                            let mut b = w.w.clone();
                            b.put(v, n);
                            while b.len % 32 != 0 {
                                b.bit(fill != 0);
                            }
                            b.bytes.extend([fill; 12]);
                            f(c, &b.bytes)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// B06

/// Parse to the end or the first error, with memory in proportion to the input.
pub fn survives(c: &Ctx, b: &[u8]) -> Result<(), String> {
    survives_with(c, b, false)
}

/// The same, without and with everything logged and shown.
fn survives_logged(c: &Ctx, b: &[u8]) -> Result<(), String> {
    survives_with(c, b, false)?;
    let _on = crate::logging::Logged::on();
    survives_with(c, b, true)
}

fn survives_with(c: &Ctx, b: &[u8], logging: bool) -> Result<(), String> {
    use crate::logging::shown;
    let end = alloc::limited((1 << 20) + 256 * b.len(), || {
        let mut s = match Bitstream::from(b) {
            Ok((_, s)) => s,
            Err(e) => return (0, std::mem::discriminant(&e)),
        };
        // Every entry takes at least one bit.
        for n in 0..=b.len() * 8 {
            match s.advance() {
                Err(e) => {
                    shown(format_args!("{e} {e:?}"));
                    return (n, std::mem::discriminant(&e));
                }
                Ok(entry) => {
                    if logging {
                        shown(format_args!("{entry:?}"));
                    }
                }
            }
        }
        panic!("more entries than bits");
    });
    c.state(&end);
    Ok(())
}

pub fn b06(c: &mut Ctx) {
    // All short inputs.
    for n in 0..=c.q(2, 3) {
        for hi in 0..if n == 3 { 256u32 } else { 1 } {
            c.case(
                || format!("all inputs of {n} bytes"),
                |c| {
                    let mut b = vec![0; n];
                    for v in 0..1u32 << (8 * n.min(2)) {
                        for (i, x) in b.iter_mut().enumerate() {
                            *x = if i < 2 { (v >> (8 * i)) as u8 } else { hi as u8 };
                        }
                        c.transitions(1);
                        survives(c, &b)?;
                        for magic in [&[0x42u8, 0x43, 0xc0, 0xde][..], &[0xde, 0xc0, 0x17, 0x0b]] {
                            survives(c, &[magic, &b].concat())?;
                            survives(c, &[magic, &b, &[0; 4]].concat())?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    let bv = boundary_values();
    // Claimed counts, lengths, widths and IDs.
    type Claim = (&'static str, fn(&mut Writer, u64) -> bool);
    const CLAIMS: &[Claim] = &[
        ("fields of an unabbreviated record", |w, v| {
            w.abbrev_id(3);
            w.w.vbr(1, 6);
            w.w.vbr(v, 6);
            true
        }),
        ("code of an unabbreviated record", |w, v| {
            w.abbrev_id(3);
            w.w.vbr(v, 6);
            w.w.vbr(1, 6);
            w.w.vbr(v, 6);
            true
        }),
        ("operands of a definition", |w, v| {
            w.abbrev_id(2);
            w.w.vbr(v, 5);
            true
        }),
        ("operands of a definition, with some", |w, v| bad_def(w, v, &[AOp::Lit(1), AOp::Fixed(8), AOp::Char6])),
        ("operands of a definition, with an array", |w, v| bad_def(w, v, &[AOp::Lit(1), array(AOp::Fixed(8))])),
        ("width of Fixed", |w, v| use_op(w, AOp::Fixed(v), 5)),
        ("width of VBR", |w, v| use_op(w, AOp::Vbr(v), 5)),
        ("width of Fixed in an array", |w, v| use_op(w, array(AOp::Fixed(v)), 5)),
        ("width of VBR in an array", |w, v| use_op(w, array(AOp::Vbr(v)), 5)),
        ("width of Fixed in a huge array", |w, v| use_op(w, array(AOp::Fixed(v)), u64::MAX >> 8)),
        ("width of VBR in a huge array", |w, v| use_op(w, array(AOp::Vbr(v)), u64::MAX >> 8)),
        ("length of an array of Fixed(1)", |w, v| use_op(w, array(AOp::Fixed(1)), v)),
        ("length of an array of Fixed(8)", |w, v| use_op(w, array(AOp::Fixed(8)), v)),
        ("length of an array of VBR(6)", |w, v| use_op(w, array(AOp::Vbr(6)), v)),
        ("length of an array of 6-bit characters", |w, v| use_op(w, array(AOp::Char6), v)),
        ("length of a blob", |w, v| use_op(w, AOp::Blob, v)),
        ("length of an array that starts the record", |w, v| lead(w, array(AOp::Fixed(8)), v)),
        ("length of a blob that starts the record", |w, v| lead(w, AOp::Blob, v)),
        ("block ID", |w, v| claim_enter(w, v, 3, 1)),
        ("block length", |w, v| claim_enter(w, 8, 3, v)),
        ("abbreviation ID width", |w, v| claim_enter(w, 8, v, 1)),
        ("abbreviation ID width of BLOCKINFO", |w, v| claim_enter(w, 0, v, 1)),
        ("SETBID", |w, v| {
            if !w.in_info() {
                return false;
            }
            w.setbid(v);
            w.def(&[AOp::Lit(v)]);
            w.end();
            w.enter(v, 3);
            w.enter(8, 3);
            true
        }),
        ("record code in BLOCKINFO", |w, v| {
            if !w.in_info() {
                return false;
            }
            w.abbrev_id(3);
            w.w.vbr(v, 6);
            w.w.vbr(2, 6);
            w.w.vbr(v, 6);
            w.w.vbr(v, 6);
            true
        }),
        ("abbreviation ID", |w, v| {
            let n = w.width();
            w.w.put(v, n);
            true
        }),
    ];
    fn lead(w: &mut Writer, op: AOp, v: u64) -> bool {
        if w.scopes.is_empty() || w.in_info() || w.width() < 3 || w.width() > 32 {
            return false;
        }
        let id = w.def(&[op]);
        if id >> w.width() != 0 {
            return false;
        }
        w.abbrev_id(id);
        w.w.vbr(v, 6);
        true
    }
    fn use_op(w: &mut Writer, op: AOp, v: u64) -> bool {
        if w.scopes.is_empty() || w.in_info() || w.width() < 3 || w.width() > 32 {
            return false;
        }
        let id = w.def(&[AOp::Lit(1), op]);
        if id >> w.width() != 0 {
            return false;
        }
        w.abbrev_id(id);
        w.w.vbr(v, 6);
        true
    }
    fn claim_enter(w: &mut Writer, id: u64, width: u64, words: u64) -> bool {
        w.abbrev_id(1);
        w.w.vbr(id, 8);
        w.w.vbr(width, 4);
        w.w.align32();
        w.w.put(words, 32);
        true
    }
    for (name, ctx) in contexts() {
        for (what, f) in CLAIMS {
            c.case(
                || format!("{what}, {name}"),
                |c| {
                    for v in bv.iter().copied().chain(4..100) {
                        for k in 0..3 {
                            let mut w = ctx.clone();
                            if !f(&mut w, v) {
                                return Ok(());
                            }
                            tail(&mut w, k);
                            c.transitions(1);
                            c.trace();
                            survives_logged(c, &w.w.bytes).map_err(|e| format!("{e} [{}]", hex(&w.w.bytes)))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    let f: &dyn Fn(&Ctx, &[u8]) -> Result<(), String> = &|c, b| {
        c.transitions(1);
        c.trace();
        survives(c, b)
    };
    corruptions(c, f);
    short_payloads(c, f);
    // Wrappers with every field at its boundaries.
    c.case(
        || "wrapper fields".into(),
        |c| {
            let vals: Vec<u32> = bv.iter().filter(|v| **v <= u32::MAX as u64).map(|v| *v as u32).collect();
            let inner = &corpus()[3].1;
            for off in &vals {
                for size in &vals {
                    let mut b = vec![];
                    for x in [0x0b17_c0de, 0, *off, *size, 7] {
                        b.extend(x.to_le_bytes());
                    }
                    b.extend(inner);
                    c.transitions(1);
                    survives(c, &b)?;
                }
            }
            Ok(())
        },
    );
    // Long runs of things that don't produce an entry, and deep nesting.
    let n = c.q(200_000, 1_000_000);
    for k in 0..8 {
        c.case(
            || format!("run {k} of {n}"),
            |c| {
                let mut w = Writer::new();
                let top = |w: &mut Writer| w.enter(8, 2);
                match k {
                    // Definitions, in a block and in BLOCKINFO.
                    0 => {
                        top(&mut w);
                        for _ in 0..n {
                            w.abbrev_id(2);
                            put_def(&mut w.w, &[AOp::Lit(1)]);
                        }
                    }
                    1 => {
                        w.enter(0, 2);
                        w.setbid(8);
                        for _ in 0..n {
                            w.abbrev_id(2);
                            put_def(&mut w.w, &[AOp::Lit(1)]);
                        }
                    }
                    2 => {
                        w.enter(0, 2);
                        for i in 0..n {
                            w.setbid(i);
                        }
                    }
                    3 => {
                        for _ in 0..n {
                            w.enter(0, 2);
                            w.end();
                        }
                    }
                    4 => {
                        for _ in 0..n {
                            w.enter(8, 2);
                            w.want.clear();
                        }
                    }
                    5 => {
                        for _ in 0..n {
                            w.enter(8, 2);
                            w.want.clear();
                        }
                        for _ in 0..n {
                            w.w.put(0, 32);
                        }
                    }
                    // BLOCKINFO in BLOCKINFO.
                    6 => {
                        for _ in 0..n {
                            w.enter(0, 2);
                        }
                    }
                    7 => {
                        w.enter(0, 2);
                        for i in 0..n {
                            w.setbid(i);
                            w.abbrev_id(2);
                            put_def(&mut w.w, &[AOp::Lit(i)]);
                        }
                    }
                    _ => unreachable!(),
                }
                w.w.align32();
                c.transitions(n);
                c.trace();
                survives(c, &w.w.bytes)
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// B07

const WRAPPER: u32 = 0x0b17_c0de;

pub fn wrap(version: u32, offset: u32, size: u32, cpu: u32, between: &[u8], inner: &[u8], behind: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    for x in [WRAPPER, version, offset, size, cpu] {
        b.extend(x.to_le_bytes());
    }
    b.extend(between);
    b.extend(inner);
    b.extend(behind);
    b
}

/// Check a wrapped stream whose range is inside the input.
fn wrapped(b: &[u8], fields: [u32; 4]) -> Result<(), String> {
    let (off, size) = (fields[1] as usize, fields[2] as usize);
    let inner = &b[off..off + size];
    let (want, term) = ref_parse(inner);
    let opened = [("from", Bitstream::from(b).and_then(|(w, s)| Ok((w.ok_or(Error::Exhausted)?, s)))), ("from_wrapped", Bitstream::from_wrapped(b))];
    for (how, r) in opened {
        let e = |e: String| format!("{how}: {e} [{} bytes, fields {fields:x?}, {}]", b.len(), hex(&b[..b.len().min(200)]));
        let (w, mut s) = match r {
            Err(_) if matches!(term, Term::Error("container")) => continue,
            Err(Error::Exhausted) => return Err(e("not recognised as a wrapper".into())),
            Err(x) => return Err(e(format!("didn't open: {x:?}"))),
            Ok(_) if matches!(term, Term::Error("container")) => return Err(e("opened".into())),
            Ok(x) => x,
        };
        let got = [w.version, w.offset, w.size, w.cpu_type];
        if w.magic != WRAPPER || got != fields {
            return Err(e(format!("wrapper {w:x?}")));
        }
        if s.magic.to_le_bytes() != inner[..4] {
            return Err(e(format!("magic {:#x}", s.magic)));
        }
        follow(&mut s, &want, term).map_err(e)?;
    }
    Ok(())
}

fn rejected(b: &[u8]) -> Result<(), String> {
    for (how, r) in [("from", Bitstream::from(b).map(|_| ())), ("from_wrapped", Bitstream::from_wrapped(b).map(|_| ()))] {
        if r.is_ok() {
            return Err(format!("{how} accepted it [{} bytes, {}]", b.len(), hex(&b[..b.len().min(200)])));
        }
    }
    Ok(())
}

pub fn b07(c: &mut Ctx) {
    let mut inners = corpus();
    inners.push(("an unclosed block", {
        let mut w = Writer::new();
        w.enter(8, 3);
        w.unabbrev(1, &[]);
        w.cut().0
    }));
    inners.push(("a violation", {
        let mut w = Writer::new();
        w.enter(8, 3);
        w.abbrev_id(7);
        w.cut().0
    }));
    inners.push(("no stream", vec![]));
    inners.push(("another magic", [&[1, 2, 3, 4][..], &corpus()[3].1[4..]].concat()));
    inners.push(("magic zero", [&[0; 4][..], &corpus()[3].1[4..]].concat()));
    inners.push(("magic of ones", [&[0xff; 4][..], &corpus()[3].1[4..]].concat()));
    inners.push(("a swapped magic", [&MAGIC.to_be_bytes()[..], &corpus()[3].1[4..]].concat()));
    inners.push(("a wrapper magic", [&WRAPPER.to_le_bytes()[..], &corpus()[3].1[4..]].concat()));
    let pattern = |k: usize, n: usize| -> Vec<u8> {
        let other = &corpus()[2].1;
        (0..n).map(|i| [0, 0xff, other[i % other.len()], (i * 31 + 7) as u8][k]).collect()
    };
    // Ranges far away.
    for k in [8, 13, 16, 24, 28, 29, 31, 32] {
        c.case(
            || format!("offsets around 2^{k}"),
            |c| {
                let b = crate::cursor::zeros();
                for (name, inner) in &inners {
                    for d in [-2048i64, -64, -8, -4, 0, 4, 8, 60] {
                        let off = (1i64 << k) + d;
                        if off < 20 || off > u32::MAX as i64 || off as usize + inner.len() > b.len() {
                            continue;
                        }
                        c.step();
                        b[..20].copy_from_slice(&wrap(3, off as u32, inner.len() as u32, 9, &[], &[], &[]));
                        let to = off as usize + inner.len();
                        b[off as usize..to].copy_from_slice(inner);
                        c.state(&(name, off));
                        c.transitions(2);
                        c.trace();
                        wrapped(&b[..to], [3, off as u32, inner.len() as u32, 9])?;
                        wrapped(b, [3, off as u32, inner.len() as u32, 9])?;
                        b[off as usize..to].fill(0);
                    }
                }
                Ok(())
            },
        );
    }
    // Streams of every length.
    for part in 0..16 {
        c.case(
            || format!("streams of every length, part {part}"),
            |c| {
                let mut words: Vec<usize> = (6..=c.q(1100, 8200)).filter(|n| n % 16 == part).collect();
                if part == 0 {
                    words.extend([8191, 8192, 8193, 16_383, 16_384, 16_385, 65_536]);
                }
                for n in words {
                    let mut w = Writer::new();
                    let of = |w: &mut Writer, records: u64| {
                        w.enter(8, 2);
                        for k in 0..records {
                            w.unabbrev(k + 1, &[k]);
                        }
                        w.end();
                    };
                    // An empty block takes three words, one with two records four, and one with four records five.
                    match n % 3 {
                        1 => {}
                        2 => of(&mut w, 2),
                        _ => of(&mut w, 4),
                    }
                    while w.w.bytes.len() < n * 4 {
                        of(&mut w, 0);
                    }
                    let inner = w.w.bytes;
                    c.state(&inner.len());
                    if inner.len() != n * 4 {
                        return Err(format!("the harness built {} bytes, not {}", inner.len(), n * 4));
                    }
                    for gap in [0, 4, 44] {
                        for behind in [0, 1, 4, 12] {
                            c.transitions(2);
                            c.trace();
                            let fields = [2, 20 + gap as u32, inner.len() as u32, 7];
                            let b = wrap(2, fields[1], fields[2], 7, &pattern(1, gap), &inner, &pattern(2, behind));
                            wrapped(&b, fields)?;
                            if behind < 4 {
                                rejected(&wrap(2, fields[1], fields[2] + 4, 7, &pattern(1, gap), &inner, &pattern(2, behind)))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let max = c.q(256, 1024);
    for (name, inner) in &inners {
        for gap in (0..=max).step_by(4) {
            c.case(
                || format!("{name}, {gap} bytes behind the header"),
                |c| {
                    for behind in 0..=17 {
                        for k in 0..4 {
                            let (off, size) = (20 + gap as u32, inner.len() as u32);
                            c.state(&(name, off, size, behind, k));
                            let b = wrap(0, off, size, 7, &pattern(k, gap), inner, &pattern(k, behind));
                            c.transitions(2);
                            c.trace();
                            wrapped(&b, [0, off, size, 7])?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // Sizes that cut the stream, or go past it.
        c.case(
            || format!("{name}, every size"),
            |c| {
                for gap in [0, 4, 12, 32] {
                    let total = inner.len() + 24;
                    for size in 0..=total as u32 + 40 {
                        let off = 20 + gap as u32;
                        let b = wrap(1, off, size, 7, &pattern(1, gap), inner, &pattern(2, 24));
                        c.transitions(2);
                        c.trace();
                        if size as usize > total || size % 4 != 0 {
                            rejected(&b)?;
                        } else {
                            wrapped(&b, [1, off, size, 7])?;
                        }
                    }
                }
                Ok(())
            },
        );
        // Truncations of the whole thing.
        c.case(
            || format!("{name}, every truncation"),
            |c| {
                for gap in [0, 4, 12] {
                    let b = wrap(0, 20 + gap as u32, inner.len() as u32, 7, &pattern(1, gap), inner, &[]);
                    for n in 0..b.len() {
                        c.transitions(2);
                        c.trace();
                        rejected(&b[..n])?;
                    }
                }
                Ok(())
            },
        );
        // What isn't a wrapper is parsed from its start, by either entry point.
        c.case(
            || format!("{name}, raw"),
            |c| {
                for tail in 0..8 {
                    let b = [&inner[..], &vec![0xff; tail]].concat();
                    let (want, term) = ref_parse(&b);
                    c.transitions(1);
                    c.trace();
                    if b.len() < 4 || b[..4] != WRAPPER.to_le_bytes() {
                        expect(&b, &want, term)?;
                    }
                    match Bitstream::from_raw(&b[..]) {
                        Ok(mut s) => {
                            if matches!(term, Term::Error("container")) {
                                return Err(format!("from_raw accepted {}", hex(&b)));
                            }
                            if s.magic.to_le_bytes() != b[..4] {
                                return Err(format!("from_raw: magic {:#x}", s.magic));
                            }
                            follow(&mut s, &want, term).map_err(|e| format!("from_raw: {e} [{}]", hex(&b)))?;
                        }
                        Err(e) => {
                            if !matches!(term, Term::Error("container")) {
                                return Err(format!("from_raw: {e:?} for {}", hex(&b)));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Fields at their boundaries.
    let bv: Vec<u32> = boundary_values().into_iter().filter(|v| *v <= u32::MAX as u64).map(|v| v as u32).collect();
    let inner = corpus()[4].1.clone();
    c.case(
        || "version and CPU type".into(),
        |c| {
            for a in &bv {
                for b in [a, &0, &7, &u32::MAX] {
                    let x = wrap(*a, 20, inner.len() as u32, *b, &[], &inner, &[]);
                    c.transitions(2);
                    c.trace();
                    wrapped(&x, [*a, 20, inner.len() as u32, *b])?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "every byte of the version and the CPU type".into(),
        |c| {
            let bytes = (0..4).flat_map(|i| (0..256u32).flat_map(move |v| [v << (8 * i), v << (8 * i) | 0x0101_0101, !(v << (8 * i))]));
            for v in (0..1000).chain(bytes) {
                for (a, b) in [(v, 7), (0, v), (v, v)] {
                    let x = wrap(a, 20, inner.len() as u32, b, &[], &inner, &[]);
                    c.transitions(2);
                    c.trace();
                    wrapped(&x, [a, 20, inner.len() as u32, b])?;
                }
            }
            Ok(())
        },
    );
    // A raw stream's magic isn't looked at, unless it's the wrapper's.
    c.case(
        || "every byte of a raw stream's magic".into(),
        |c| {
            for base in [MAGIC, WRAPPER, 0, u32::MAX] {
                for i in 0..4 {
                    for v in 0..256u32 {
                        let magic = base & !(0xff << (8 * i)) | v << (8 * i);
                        if magic == WRAPPER {
                            continue;
                        }
                        let mut w = Writer::with_magic(magic);
                        w.enter(8, 3);
                        w.unabbrev(1, &[2]);
                        c.transitions(1);
                        c.trace();
                        w.check()?;
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "small versions, and all CPU types of object files".into(),
        |c| {
            let arch = [0, 1 << 24, 2 << 24, 3 << 24, 1 << 31, 0xff00_0000];
            for version in 0..40 {
                for cpu in (0..c.q(130, 1000u32)).flat_map(|k| arch.map(|a| k | a)) {
                    let x = wrap(version, 20, inner.len() as u32, cpu, &[], &inner, &[]);
                    c.transitions(2);
                    c.trace();
                    wrapped(&x, [version, 20, inner.len() as u32, cpu])?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "ranges outside of the input".into(),
        |c| {
            for off in &bv {
                for size in &bv {
                    let b = wrap(0, *off, *size, 7, &[], &inner, &[]);
                    if *off as u64 + *size as u64 > b.len() as u64 {
                        c.transitions(2);
                        c.trace();
                        rejected(&b)?;
                    }
                }
            }
            Ok(())
        },
    );
    // Near misses of the magic are raw streams.
    c.case(
        || "almost the wrapper's magic".into(),
        |c| {
            for i in 0..32 {
                let mut w = Writer::with_magic(WRAPPER ^ (1 << i));
                w.enter(8, 3);
                w.unabbrev(1, &[2]);
                c.transitions(1);
                c.trace();
                w.check()?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// B08

/// The entries of a stream as the real parser yields them, and whether it ends cleanly.
fn real_entries(b: &[u8]) -> Result<(Vec<String>, bool), String> {
    let mut v = vec![];
    let (_, mut s) = match Bitstream::from(b) {
        Ok(x) => x,
        Err(_) => return Ok((v, false)),
    };
    for _ in 0..=b.len() * 8 {
        match s.advance() {
            Ok(e) => v.push(format!("{e:?}")),
            Err(Error::Exhausted) => return Ok((v, true)),
            Err(_) => return Ok((v, false)),
        }
    }
    Err("more entries than bits".into())
}

fn truncations(c: &Ctx, b: &[u8], bytes: bool) -> Result<(), String> {
    let (all, clean) = real_entries(b)?;
    if !clean {
        return Err(format!("the whole stream doesn't parse: {}", hex(b)));
    }
    let mut last = 0;
    for n in (0..b.len()).step_by(if bytes { 1 } else { 4 }) {
        c.transitions(1);
        c.trace();
        let cut = &b[..n];
        let (v, _) = real_entries(cut)?;
        if v.len() > all.len() || v != all[..v.len()] {
            return Err(format!("cut at byte {n}: {v:?} isn't a prefix of {all:?} [stream {}]", hex(b)));
        }
        if n % 4 != 0 {
            if !v.is_empty() {
                return Err(format!("cut at byte {n}, in the middle of a word, but has entries {v:?}"));
            }
            continue;
        }
        if v.len() < last {
            return Err(format!("cut at byte {n}: fewer entries than a shorter one [stream {}]", hex(b)));
        }
        last = v.len();
        differential(cut)?;
    }
    Ok(())
}

pub fn b08(c: &mut Ctx) {
    for (name, b) in corpus() {
        c.case(|| format!("{name}, every cut"), |c| truncations(c, &b, true));
    }
    const TOKS: [Tok; 7] = [Tok::Enter(8, 3), Tok::Enter(9, 5), Tok::End, Tok::Def, Tok::Use(4), Tok::Rec(40, &[100, 1 << 33]), Tok::Info(&[8, 9])];
    explore(c, "cuts", &TOKS, c.q(7, 9), 3, true, &|c, s, bad| {
        if bad.is_some() {
            return Ok(());
        }
        truncations(c, &s.w.clone().done().0, false)
    });
    // Records of every kind and length, cut everywhere.
    let kinds = [
        ("fields", None),
        ("an array of Fixed(8)", Some(array(AOp::Fixed(8)))),
        ("an array of Fixed(32)", Some(array(AOp::Fixed(32)))),
        ("an array of VBR(6)", Some(array(AOp::Vbr(6)))),
        ("an array of 6-bit characters", Some(array(AOp::Char6))),
        ("a blob", Some(AOp::Blob)),
        ("a literal", Some(AOp::Lit(97))),
        ("VBR(32)", Some(AOp::Vbr(32))),
        ("Fixed(32)", Some(AOp::Fixed(32))),
    ];
    for (name, op) in &kinds {
        c.case(
            || format!("{name}, every cut"),
            |c| {
                for n in 0..c.q(40, 200) {
                    for width in [3, 4, 9, 32] {
                        let mut w = Writer::new();
                        w.enter(8, width);
                        let vals = vec![97; n];
                        match op {
                            None => {
                                w.unabbrev(1, &vals);
                                w.unabbrev(2, &vals);
                            }
                            Some(op) => {
                                let many = matches!(op, AOp::Array(_) | AOp::Blob);
                                let mut d = vec![AOp::Lit(1)];
                                d.extend(std::iter::repeat_n(op.clone(), if many { 1 } else { n }));
                                w.def(&d);
                                w.abbrev(4, 1, &vals);
                                w.abbrev(4, 1, &vals);
                            }
                        }
                        truncations(c, &w.done().0, false)?;
                    }
                }
                Ok(())
            },
        );
    }
    crate::mapper::cut_bitcode(c);
}
