//! The reference view of bitstreams: an independent parser, and a writer that tracks scopes.

use std::collections::BTreeMap;

use llvm_bitstream::error::Error;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::record::Record;
use llvm_bitstream::Bitstream;

use crate::bits::{bits, hex, vbr, BitWriter, Vbr};

pub const MAGIC: u32 = 0xdec04342;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    Block { id: u64, len: u64 },
    End,
    Rec { abbrev: Option<u64>, code: u64, fields: Vec<u64> },
}

/// How a stream ends, behind the entries it contains.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Term {
    /// Cleanly, outside of all blocks.
    End,
    /// Without a violation of the format, but inside of a block.
    EndInBlock,
    /// With a violation of the format.
    Error(&'static str),
    /// With something whose meaning isn't specified.
    Unspecified(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AOp {
    Lit(u64),
    Fixed(u64),
    Vbr(u64),
    Char6,
    Array(Box<AOp>),
    Blob,
}

pub fn array(e: AOp) -> AOp {
    AOp::Array(Box::new(e))
}

pub const CHAR6: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";

pub type Def = Vec<AOp>;

struct RefScope {
    width: usize,
    id: Option<u64>,
    bid: Option<u64>,
    abbrevs: Vec<Def>,
}

/// The reference parser for the range from `start` on.
pub struct Ref<'a> {
    b: &'a [u8],
    pos: usize,
    scopes: Vec<RefScope>,
    info: BTreeMap<u64, Vec<Def>>,
}

type R<T> = Result<T, Term>;

impl<'a> Ref<'a> {
    pub fn new(b: &'a [u8], pos: usize) -> Self {
        Ref { b, pos, scopes: vec![RefScope { width: 2, id: None, bid: None, abbrevs: vec![] }], info: BTreeMap::new() }
    }
    fn top(&mut self) -> &mut RefScope {
        self.scopes.last_mut().unwrap()
    }
    fn bits(&mut self, n: usize) -> R<u64> {
        let v = bits(self.b, self.pos, n).ok_or(Term::Error("cut short"))?;
        self.pos += n;
        Ok(v)
    }
    fn vbr(&mut self, w: usize) -> R<u64> {
        match vbr(self.b, self.pos, w) {
            Vbr::Value(v, p) => {
                self.pos = p;
                Ok(v)
            }
            Vbr::Short => Err(Term::Error("cut short")),
            Vbr::Overflow => Err(Term::Error("VBR overflow")),
            Vbr::Unspecified => Err(Term::Unspecified("VBR with zero chunks beyond 64 bits")),
        }
    }
    fn align(&mut self) {
        self.pos = self.pos.div_ceil(32) * 32;
    }
    fn scalar(&mut self, op: &AOp) -> R<u64> {
        match op {
            AOp::Lit(v) => Ok(*v),
            AOp::Fixed(w) => self.bits(*w as usize),
            AOp::Vbr(w) => self.vbr(*w as usize),
            AOp::Char6 => Ok(CHAR6[self.bits(6)? as usize] as u64),
            _ => unreachable!(),
        }
    }
    /// The values of a record with the definition `def`.
    pub fn values(&mut self, def: &[AOp]) -> R<Vec<u64>> {
        let mut v = vec![];
        for (i, op) in def.iter().enumerate() {
            match op {
                AOp::Array(e) => {
                    let n = self.vbr(6)?;
                    for _ in 0..n {
                        v.push(self.scalar(e)?);
                    }
                }
                AOp::Blob => {
                    let n = self.vbr(6)?;
                    self.align();
                    for _ in 0..n {
                        v.push(self.bits(8)?);
                    }
                    self.align();
                }
                op => v.push(self.scalar(op)?),
            }
            if i == 0 {
                if v.is_empty() {
                    return Err(Term::Error("record without a code"));
                }
                if matches!(op, AOp::Array(_) | AOp::Blob) {
                    return Err(Term::Unspecified("code in an array or blob"));
                }
            }
        }
        Ok(v)
    }
    fn element(&mut self, enc: u64) -> R<Option<AOp>> {
        Ok(Some(match enc {
            1 => match self.vbr(5)? {
                w @ 1..=32 => AOp::Fixed(w),
                _ => return Err(Term::Unspecified("Fixed width")),
            },
            2 => match self.vbr(5)? {
                w @ 2..=32 => AOp::Vbr(w),
                _ => return Err(Term::Unspecified("VBR width")),
            },
            4 => AOp::Char6,
            _ => return Ok(None),
        }))
    }
    /// A definition.
    pub fn def(&mut self) -> R<Def> {
        let n = self.vbr(5)?;
        if n == 0 {
            return Err(Term::Error("no operands"));
        }
        let mut ops = vec![];
        let mut i = 0;
        while i < n {
            if self.bits(1)? == 1 {
                ops.push(AOp::Lit(self.vbr(8)?));
                i += 1;
                continue;
            }
            let enc = self.bits(3)?;
            match enc {
                1 | 2 | 4 => ops.push(self.element(enc)?.unwrap()),
                3 => {
                    if n - i != 2 {
                        return Err(Term::Error("misplaced array"));
                    }
                    if self.bits(1)? == 1 {
                        return Err(Term::Error("literal element"));
                    }
                    let enc = self.bits(3)?;
                    let e = self.element(enc)?.ok_or(Term::Error("bad element"))?;
                    ops.push(array(e));
                    i += 1;
                }
                5 => {
                    if n - i != 1 {
                        return Err(Term::Error("misplaced blob"));
                    }
                    ops.push(AOp::Blob);
                }
                _ => return Err(Term::Error("unknown encoding")),
            }
            i += 1;
        }
        Ok(ops)
    }
    /// The next thing in the stream; `None` if there's no entry for it.
    fn one(&mut self) -> R<Option<Entry>> {
        if self.pos == self.b.len() * 8 {
            return Err(if self.scopes.len() == 1 { Term::End } else { Term::EndInBlock });
        }
        let w = self.top().width;
        let id = self.bits(w)?;
        let scope = self.top().id;
        match id {
            0 => {
                self.align();
                if scope.is_none() {
                    return Err(Term::Error("unmatched end"));
                }
                self.scopes.pop();
                Ok((scope != Some(0)).then_some(Entry::End))
            }
            1 => {
                if scope == Some(0) {
                    return Err(Term::Unspecified("block in BLOCKINFO"));
                }
                let id = self.vbr(8)?;
                let width = self.vbr(4)?;
                self.align();
                let words = self.bits(32);
                if width == 0 {
                    return Err(Term::Error("zero width"));
                }
                if width > 32 {
                    return Err(Term::Unspecified("abbreviation ID width"));
                }
                let len = words? * 4;
                let abbrevs = self.info.get(&id).cloned().unwrap_or_default();
                self.scopes.push(RefScope { width: width as usize, id: Some(id), bid: None, abbrevs });
                Ok((id != 0).then_some(Entry::Block { id, len }))
            }
            2 => {
                let def = self.def()?;
                match scope {
                    None => return Err(Term::Error("definition outside of a block")),
                    Some(0) => {
                        let bid = self.top().bid.ok_or(Term::Error("no block ID selected"))?;
                        self.info.entry(bid).or_default().push(def);
                    }
                    _ => self.top().abbrevs.push(def),
                }
                Ok(None)
            }
            3 => {
                if scope.is_none() {
                    return Err(Term::Error("record outside of a block"));
                }
                let code = self.vbr(6)?;
                let n = self.vbr(6)?;
                let mut fields = vec![];
                for _ in 0..n {
                    fields.push(self.vbr(6)?);
                }
                self.record(None, code, fields)
            }
            n => {
                if scope.is_none() {
                    return Err(Term::Error("record outside of a block"));
                }
                let idx = (n - 4) as usize;
                let def = self.top().abbrevs.get(idx).cloned().ok_or(Term::Error("no such abbreviation"))?;
                let mut v = self.values(&def)?;
                let code = v.remove(0);
                self.record(Some(n), code, v)
            }
        }
    }
    /// A record, however it's encoded.
    fn record(&mut self, abbrev: Option<u64>, code: u64, fields: Vec<u64>) -> R<Option<Entry>> {
        if self.top().id != Some(0) {
            return Ok(Some(Entry::Rec { abbrev, code, fields }));
        }
        match code {
            1 => match fields.first() {
                Some(b) => self.top().bid = Some(*b),
                None => return Err(Term::Error("SETBID without ID")),
            },
            2 | 3 => {}
            _ => return Err(Term::Unspecified("record in BLOCKINFO")),
        }
        Ok(None)
    }
    pub fn run(mut self) -> (Vec<Entry>, Term) {
        let mut v = vec![];
        loop {
            match self.one() {
                Ok(Some(e)) => v.push(e),
                Ok(None) => {}
                Err(t) => return (v, t),
            }
        }
    }
}

/// The entries of a raw stream.
pub fn ref_parse(b: &[u8]) -> (Vec<Entry>, Term) {
    if b.len() % 4 != 0 || b.len() < 4 {
        return (vec![], Term::Error("container"));
    }
    Ref::new(b, 32).run()
}

pub fn same(e: &StreamEntry, want: &Entry) -> bool {
    match (e, want) {
        (StreamEntry::EndBlock, Entry::End) => true,
        (StreamEntry::SubBlock(b), Entry::Block { id, len }) => b.block_id == *id && b.len == *len,
        (StreamEntry::Record(r), Entry::Rec { abbrev, code, fields }) => r.abbrev_id == *abbrev && r.code == *code && r.fields == *fields,
        _ => false,
    }
}

/// What can be done with an entry: blocks (and nothing else) come out as blocks, and records can be
/// made of their parts.
fn rest(e: StreamEntry, want: &Entry) -> Result<(), String> {
    if let (StreamEntry::Record(r), Entry::Rec { abbrev, .. }) = (&e, want) {
        let again = match abbrev {
            Some(a) => Record::from_abbrev(*a, r.code, r.fields.clone()),
            None => Record::from_unabbrev(r.code, r.fields.clone()),
        };
        if !same(&StreamEntry::Record(again.clone()), want) {
            return Err(format!("{want:?}: a record of its parts is {again:?}"));
        }
    }
    match (e.as_block(), want) {
        (None, Entry::Rec { .. } | Entry::End) => Ok(()),
        (Some(b), Entry::Block { id, len }) if b.block_id == *id && b.len == *len => Ok(()),
        (b, _) => Err(format!("{want:?}, as a block: {b:?}")),
    }
}

fn short(s: String) -> String {
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s
    }
}

fn shex(b: &[u8]) -> String {
    if b.len() > 600 {
        format!("{}... ({} bytes)", hex(&b[..600]), b.len())
    } else {
        hex(b)
    }
}

/// Advance an opened stream and compare it with what's expected.
pub fn follow<T: AsRef<[u8]>>(s: &mut Bitstream<T>, want: &[Entry], term: Term) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        // Entries come out of either interface.
        let e = match i % 2 {
            0 => s.advance(),
            _ => s.next().unwrap_or(Err(Error::Exhausted)),
        };
        match e {
            Ok(e) if same(&e, w) => rest(e, w)?,
            Ok(e) => return Err(format!("entry {i}: expected {}, got {}", short(format!("{w:?}")), short(format!("{e:?}")))),
            Err(e) => return Err(format!("entry {i}: expected {}, got error {e:?}", short(format!("{w:?}")))),
        }
    }
    if matches!(term, Term::Unspecified(_)) {
        return Ok(());
    }
    // So does the end.
    let end = match want.len() % 2 {
        0 => s.advance(),
        _ => s.next().unwrap_or(Err(Error::Exhausted)),
    };
    match (end, term) {
        // Once it's reported, the end remains.
        (Err(Error::Exhausted), Term::End | Term::EndInBlock) => match (s.next(), s.advance(), s.next()) {
            (None, Err(Error::Exhausted), None) => Ok(()),
            r => Err(format!("after the end: {}", short(format!("{r:?}")))),
        },
        (Err(Error::Exhausted), Term::Error(w)) => Err(format!("after {} entries: expected an error ({w}), got a clean end", want.len())),
        (Err(_), Term::Error(_) | Term::EndInBlock) => Ok(()),
        (Err(e), _) => Err(format!("after {} entries: expected the end, got error {e:?}", want.len())),
        (Ok(e), _) => Err(format!("after {} entries: expected {term:?}, got {}", want.len(), short(format!("{e:?}")))),
    }
}

/// Run the real parser on a raw stream and compare it with what's expected.
pub fn expect(b: &[u8], want: &[Entry], term: Term) -> Result<(), String> {
    let r = match Bitstream::from(b) {
        Err(_) if want.is_empty() && matches!(term, Term::Error("container")) => return Ok(()),
        Err(e) => Err(format!("didn't open: {e:?}")),
        Ok((Some(_), _)) => Err("opened as a wrapper".to_string()),
        Ok((None, mut s)) => {
            let magic = u32::from_le_bytes(b[..4].try_into().unwrap());
            if s.magic != magic {
                Err(format!("magic {:#x} instead of {magic:#x}", s.magic))
            } else {
                follow(&mut s, want, term)
            }
        }
    };
    r.map_err(|e| format!("{e} [stream {}]", shex(b)))
}

/// Compare the real parser with the reference parser on any bytes that aren't a wrapper.
pub fn differential(b: &[u8]) -> Result<(), String> {
    let (want, term) = ref_parse(b);
    expect(b, &want, term)
}

/// Whether a record with these values (code first) can be written with a definition.
pub fn expressible(def: &[AOp], vals: &[u64]) -> bool {
    fn scalar(op: &AOp, v: u64) -> bool {
        match op {
            AOp::Lit(l) => *l == v,
            AOp::Fixed(w) => *w >= 64 || v >> w == 0,
            AOp::Vbr(_) => true,
            AOp::Char6 => v < 256 && CHAR6.contains(&(v as u8)),
            _ => unreachable!(),
        }
    }
    let mut i = 0;
    for op in def {
        match op {
            AOp::Array(e) => {
                return vals[i..].iter().all(|v| scalar(e, *v));
            }
            AOp::Blob => return vals[i..].iter().all(|v| *v < 256),
            op => {
                if i >= vals.len() || !scalar(op, vals[i]) {
                    return false;
                }
                i += 1;
            }
        }
    }
    i == vals.len()
}

fn put_scalar(w: &mut BitWriter, op: &AOp, v: u64) {
    match op {
        AOp::Lit(_) => {}
        AOp::Fixed(n) => w.put(v, *n as usize),
        AOp::Vbr(n) => w.vbr(v, *n as usize),
        AOp::Char6 => w.put(CHAR6.iter().position(|c| *c as u64 == v).unwrap() as u64, 6),
        _ => unreachable!(),
    }
}

/// Write values (which must be expressible) with a definition.
pub fn put_values(w: &mut BitWriter, def: &[AOp], vals: &[u64]) {
    let mut i = 0;
    for op in def {
        match op {
            AOp::Array(e) => {
                w.vbr((vals.len() - i) as u64, 6);
                for v in &vals[i..] {
                    put_scalar(w, e, *v);
                }
            }
            AOp::Blob => {
                w.vbr((vals.len() - i) as u64, 6);
                w.align32();
                for v in &vals[i..] {
                    w.put(*v, 8);
                }
                w.align32();
            }
            op => {
                put_scalar(w, op, vals[i]);
                i += 1;
            }
        }
    }
}

pub fn put_op(w: &mut BitWriter, op: &AOp) {
    match op {
        AOp::Lit(v) => {
            w.put(1, 1);
            w.vbr(*v, 8);
        }
        AOp::Fixed(n) => {
            w.put(1 << 1, 4);
            w.vbr(*n, 5);
        }
        AOp::Vbr(n) => {
            w.put(2 << 1, 4);
            w.vbr(*n, 5);
        }
        AOp::Array(e) => {
            w.put(3 << 1, 4);
            put_op(w, e);
        }
        AOp::Char6 => w.put(4 << 1, 4),
        AOp::Blob => w.put(5 << 1, 4),
    }
}

/// Write a definition, behind its abbreviation ID.
pub fn put_def(w: &mut BitWriter, def: &[AOp]) {
    let n = def.iter().map(|o| 1 + matches!(o, AOp::Array(_)) as u64).sum();
    w.vbr(n, 5);
    for op in def {
        put_op(w, op);
    }
}

#[derive(Clone, Debug)]
pub struct Scope {
    pub width: usize,
    pub id: u64,
    pub abbrevs: Vec<Def>,
    /// The position behind the length word.
    pub start: usize,
    pub entry: Option<usize>,
}

/// Writes a stream, and what it contains.
#[derive(Clone, Debug)]
pub struct Writer {
    pub w: BitWriter,
    pub scopes: Vec<Scope>,
    pub info: BTreeMap<u64, Vec<Def>>,
    pub bid: Option<u64>,
    pub want: Vec<Entry>,
}

impl Default for Writer {
    fn default() -> Self {
        Self::new()
    }
}

impl Writer {
    pub fn new() -> Self {
        Self::with_magic(MAGIC)
    }
    pub fn with_magic(magic: u32) -> Self {
        let mut w = BitWriter::new();
        w.put(magic as u64, 32);
        Writer { w, scopes: vec![], info: BTreeMap::new(), bid: None, want: vec![] }
    }
    pub fn width(&self) -> usize {
        self.scopes.last().map_or(2, |s| s.width)
    }
    pub fn abbrev_id(&mut self, id: u64) {
        let w = self.width();
        assert!(w >= 64 || id >> w == 0, "abbreviation ID {id} in {w} bits");
        self.w.put(id, w);
    }
    pub fn in_info(&self) -> bool {
        self.scopes.last().is_some_and(|s| s.id == 0)
    }
    pub fn enter(&mut self, id: u64, width: usize) {
        self.abbrev_id(1);
        self.w.vbr(id, 8);
        self.w.vbr(width as u64, 4);
        self.w.align32();
        self.w.put(0, 32);
        if id == 0 {
            self.bid = None;
        } else {
            self.want.push(Entry::Block { id, len: 0 });
        }
        let abbrevs = self.info.get(&id).cloned().unwrap_or_default();
        self.scopes.push(Scope { width, id, abbrevs, start: self.w.len, entry: (id != 0).then(|| self.want.len() - 1) });
    }
    pub fn end(&mut self) {
        self.abbrev_id(0);
        self.w.align32();
        let s = self.scopes.pop().unwrap();
        let words = (self.w.len - s.start) / 32;
        self.w.patch32(s.start - 32, words as u32);
        if let Some(e) = s.entry {
            let Entry::Block { len, .. } = &mut self.want[e] else { unreachable!() };
            *len = words as u64 * 4;
            self.want.push(Entry::End);
        }
    }
    /// Pad the stream to whole words without closing the open blocks, and patch the lengths of the
    /// open ones.
    pub fn cut(mut self) -> (Vec<u8>, Vec<Entry>) {
        self.w.align32();
        (self.w.finish(), self.want)
    }
    pub fn def(&mut self, def: &[AOp]) -> u64 {
        self.abbrev_id(2);
        put_def(&mut self.w, def);
        if self.in_info() {
            let v = self.info.entry(self.bid.unwrap()).or_default();
            v.push(def.to_vec());
            v.len() as u64 + 3
        } else {
            let v = &mut self.scopes.last_mut().unwrap().abbrevs;
            v.push(def.to_vec());
            v.len() as u64 + 3
        }
    }
    fn put_unabbrev(&mut self, code: u64, fields: &[u64]) {
        self.abbrev_id(3);
        self.w.vbr(code, 6);
        self.w.vbr(fields.len() as u64, 6);
        for f in fields {
            self.w.vbr(*f, 6);
        }
    }
    pub fn setbid(&mut self, bid: u64) {
        assert!(self.in_info());
        self.put_unabbrev(1, &[bid]);
        self.bid = Some(bid);
    }
    /// A record without an abbreviation (one that's skipped, in BLOCKINFO).
    pub fn unabbrev(&mut self, code: u64, fields: &[u64]) {
        self.put_unabbrev(code, fields);
        if !self.in_info() {
            self.want.push(Entry::Rec { abbrev: None, code, fields: fields.to_vec() });
        }
    }
    /// A record with an abbreviation that's in scope and can express it.
    pub fn abbrev(&mut self, id: u64, code: u64, fields: &[u64]) {
        let def = self.scopes.last().unwrap().abbrevs[id as usize - 4].clone();
        let mut vals = vec![code];
        vals.extend(fields);
        assert!(expressible(&def, &vals), "{def:?} {vals:?}");
        self.abbrev_id(id);
        put_values(&mut self.w, &def, &vals);
        if !self.in_info() {
            self.want.push(Entry::Rec { abbrev: Some(id), code, fields: fields.to_vec() });
        } else if code == 1 {
            self.bid = fields.first().copied();
        }
    }
    /// A complete BLOCKINFO block.
    pub fn blockinfo(&mut self, width: usize, regs: &[(u64, Vec<Def>)]) {
        self.enter(0, width);
        for (bid, defs) in regs {
            self.setbid(*bid);
            for d in defs {
                self.def(d);
            }
        }
        self.end();
    }
    pub fn close(&mut self) {
        while !self.scopes.is_empty() {
            self.end();
        }
    }
    /// Close everything and return the stream and its entries.
    pub fn done(mut self) -> (Vec<u8>, Vec<Entry>) {
        self.close();
        (self.w.finish(), self.want)
    }
    /// Close everything, and check the stream against the real and the reference parser.
    pub fn check(self) -> Result<(), String> {
        let (b, want) = self.done();
        check(&b, &want, Term::End)
    }
    /// Check a stream that violates the format right here (what's to follow is `tail`).
    pub fn check_error(mut self, what: &'static str) -> Result<(), String> {
        self.w.align32();
        let (b, want) = (self.w.finish(), self.want);
        check(&b, &want, Term::Error(what))
    }
}

/// Check a stream against the reference parser (which must agree with the writer) and the real one.
pub fn check(b: &[u8], want: &[Entry], term: Term) -> Result<(), String> {
    let (rwant, rterm) = ref_parse(b);
    assert!(
        rwant == want && std::mem::discriminant(&rterm) == std::mem::discriminant(&term),
        "the reference parser disagrees with the writer: {want:?} {term:?} vs {rwant:?} {rterm:?} for {}",
        hex(b)
    );
    expect(b, want, term)
}
