//! Bitcode documents: their encodings, what the real mapper makes of them, and what it should.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use llvm_mapper::block::{Attribute, IntAttribute, UwTableVariant};
use llvm_mapper::Bitcode;
use llvm_support::{Align, MaybeAlign, Type};

use crate::dl::{Dl, DlSeen, Reject, Stop, Unspec, R};
use crate::stream::{array, expressible, AOp, Def, Writer};
use crate::tables::{ATTRIBUTES, CALLING_CONVENTIONS, ENUM_ATTRIBUTES, LINKAGES};
use crate::types::{Prim, Ty, MAX_SPACE, T};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    B(u64, Vec<Node>),
    R(u64, Vec<u64>),
}
pub use Node::*;

pub type Doc = Vec<Node>;

// Block IDs.
pub const MODULE: u64 = 8;
pub const PARAMATTR: u64 = 9;
pub const GROUPS: u64 = 10;
pub const IDENT: u64 = 13;
pub const VST: u64 = 14;
pub const TYPES: u64 = 17;
pub const STRTAB: u64 = 23;
pub const SYMTAB: u64 = 25;

pub fn text(s: &str) -> Vec<u64> {
    s.bytes().map(u64::from).collect()
}

pub fn bytes(b: &[u8]) -> Vec<u64> {
    b.iter().map(|b| *b as u64).collect()
}

pub fn show(d: &[Node]) -> String {
    fn one(n: &Node, s: &mut String) {
        match n {
            B(id, c) => {
                s.push_str(&format!("{id}{{"));
                for (i, x) in c.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    one(x, s);
                }
                s.push('}');
            }
            R(code, f) => {
                s.push_str(&format!("{code}["));
                if f.len() > 60 {
                    s.push_str(&format!("{} fields", f.len()));
                } else {
                    for (i, x) in f.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        s.push_str(&x.to_string());
                    }
                }
                s.push(']');
            }
        }
    }
    let mut s = String::new();
    for (i, x) in d.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        one(x, &mut s);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Encodings

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// No abbreviations.
    Plain,
    /// `[vbr6, array(vbr6)]`.
    Array6,
    /// `[code, array(fixed)]` of a sufficient width.
    FixedArray,
    /// `[code, array(char6)]`.
    Char6,
    /// `[code, blob]`.
    Blob,
    /// An abbreviation of scalars for each record.
    Scalars,
    /// The first field, then an array of the rest.
    Head,
    /// Everything as a literal.
    Literals,
    /// `Array6`, registered by a top-level BLOCKINFO.
    InfoTop,
    /// `Array6`, registered by a BLOCKINFO within each module (for the blocks in it).
    InfoModule,
}

pub const STYLES: [Style; 10] =
    [Style::Plain, Style::Array6, Style::FixedArray, Style::Char6, Style::Blob, Style::Scalars, Style::Head, Style::Literals, Style::InfoTop, Style::InfoModule];

#[derive(Clone, Copy, Debug)]
pub struct Enc {
    pub width: usize,
    pub style: Style,
}

pub const PLAIN: Enc = Enc { width: 3, style: Style::Plain };

fn need(v: u64) -> u64 {
    (64 - v.leading_zeros() as u64).max(1)
}

fn def_for(style: Style, code: u64, fields: &[u64]) -> Option<Def> {
    Some(match style {
        Style::Plain => return None,
        Style::Array6 | Style::InfoTop | Style::InfoModule => vec![AOp::Vbr(6), array(AOp::Vbr(6))],
        Style::FixedArray => {
            let w = fields.iter().map(|f| need(*f)).max().unwrap_or(1);
            if w > 32 {
                return None;
            }
            vec![AOp::Lit(code), array(AOp::Fixed(w))]
        }
        Style::Char6 => vec![AOp::Lit(code), array(AOp::Char6)],
        Style::Blob => vec![AOp::Lit(code), AOp::Blob],
        Style::Scalars => {
            if fields.len() > 24 {
                return None;
            }
            let mut d = vec![AOp::Fixed(need(code).min(32))];
            for (i, f) in fields.iter().enumerate() {
                d.push(match i % 3 {
                    0 => AOp::Vbr(5),
                    1 if need(*f) <= 32 => AOp::Fixed(need(*f)),
                    1 => AOp::Vbr(32),
                    _ => AOp::Lit(*f),
                });
            }
            d
        }
        Style::Head => {
            if fields.is_empty() {
                vec![AOp::Vbr(3)]
            } else {
                vec![AOp::Vbr(3), AOp::Vbr(8), array(AOp::Vbr(4))]
            }
        }
        Style::Literals => {
            if fields.len() > 24 {
                return None;
            }
            let mut d = vec![AOp::Lit(code)];
            d.extend(fields.iter().map(|f| AOp::Lit(*f)));
            d
        }
    })
}

fn block_ids(d: &[Node], ids: &mut BTreeSet<u64>) {
    for n in d {
        if let B(id, c) = n {
            ids.insert(*id);
            block_ids(c, ids);
        }
    }
}

/// Write nodes, and choose the style of each record.
fn put_with(w: &mut Writer, d: &[Node], e: &Enc, pick: &mut dyn FnMut() -> Style) {
    for n in d {
        match n {
            B(id, c) => {
                w.enter(*id, e.width);
                if e.style == Style::InfoModule && *id == MODULE {
                    let mut ids = BTreeSet::new();
                    block_ids(c, &mut ids);
                    let regs: Vec<_> = ids.iter().map(|i| (*i, vec![vec![AOp::Vbr(6), array(AOp::Vbr(6))]])).collect();
                    // Registering again for a later module would add a second abbreviation.
                    let regs: Vec<_> = regs.into_iter().filter(|(i, _)| !w.info.contains_key(i)).collect();
                    if !regs.is_empty() {
                        w.blockinfo(2, &regs);
                    }
                }
                put_with(w, c, e, pick);
                w.end();
            }
            R(code, fields) => {
                let style = pick();
                let def = match w.scopes.is_empty() {
                    true => None,
                    false => def_for(style, *code, fields),
                };
                let Some(def) = def else {
                    w.unabbrev(*code, fields);
                    continue;
                };
                let mut vals = vec![*code];
                vals.extend(fields);
                let known = w.scopes.last().unwrap().abbrevs.iter().position(|d| *d == def);
                let next = w.scopes.last().unwrap().abbrevs.len();
                let id = known.unwrap_or(next) as u64 + 4;
                if !expressible(&def, &vals) || id >> e.width != 0 {
                    w.unabbrev(*code, fields);
                    continue;
                }
                if known.is_none() {
                    w.def(&def);
                }
                w.abbrev(id, *code, fields);
            }
        }
    }
}

pub fn put(w: &mut Writer, d: &[Node], e: &Enc) {
    put_with(w, d, e, &mut || e.style);
}

/// The document as a bitstream with a style for each record.
pub fn encode_with(d: &[Node], width: usize, styles: &[Style]) -> Vec<u8> {
    let mut w = Writer::new();
    let mut i = styles.iter();
    put_with(&mut w, d, &Enc { width, style: Style::Plain }, &mut || i.next().copied().unwrap_or(Style::Plain));
    w.done().0
}

/// The document as a bitstream. (Top-level records are written as if they were allowed.)
pub fn encode(d: &[Node], e: &Enc) -> Vec<u8> {
    let mut w = Writer::new();
    if e.style == Style::InfoTop {
        let mut ids = BTreeSet::new();
        block_ids(d, &mut ids);
        let regs: Vec<_> = ids.iter().map(|i| (*i, vec![vec![AOp::Vbr(6), array(AOp::Vbr(6))]])).collect();
        if !regs.is_empty() {
            w.blockinfo(2, &regs);
        }
    }
    put(&mut w, d, e);
    w.done().0
}

// ---------------------------------------------------------------------------------------------
// What's observed

#[derive(Clone, Debug, PartialEq)]
pub struct Fun {
    pub name: String,
    pub ty: Type,
    pub cc: String,
    pub declaration: bool,
    pub linkage: String,
    /// The groups of the attribute list.
    pub attributes: Option<Vec<Group>>,
    pub alignment: MaybeAlign,
    pub section: Option<String>,
    pub visibility: String,
    pub gc: Option<String>,
    pub unnamed: String,
    pub dll: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Alias {
    pub name: String,
    pub ty: Type,
    pub aliasee: u64,
    pub linkage: String,
    pub visibility: String,
    pub dll: String,
    pub tls: String,
    pub unnamed: String,
    pub preemption: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Group {
    pub target: String,
    pub attributes: Vec<Attribute>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inner {
    pub version: u64,
    /// Whether names are in a string table, and operands relative.
    pub conventions: (bool, bool),
    pub layout: DlSeen,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub strtab: Vec<u8>,
    pub types: Vec<Type>,
    pub comdats: Vec<(String, String)>,
    /// The groups with the [`GROUP_IDS`].
    pub groups: Vec<(u32, Group)>,
    pub lists: Vec<Vec<Group>>,
    pub functions: Vec<Fun>,
    pub aliases: Vec<Alias>,
}

/// The group IDs that are looked up.
pub const GROUP_IDS: [u32; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 41, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 255, 256];

#[derive(Clone, Debug, PartialEq)]
pub struct Mod {
    pub producer: String,
    pub epoch: u64,
    pub triple: String,
    pub asm: Vec<String>,
    pub deplibs: Vec<String>,
    pub strtab: Vec<u8>,
    pub symtab: Option<Vec<u8>>,
    pub inner: Option<Inner>,
}

#[cfg(mollusc_verif)]
mod hooked {
    use super::*;
    use llvm_mapper::block::AttributeGroup;
    use llvm_mapper::verif;

    fn group(g: &AttributeGroup) -> Group {
        Group { target: format!("{:?}", g.disposition), attributes: g.attributes.clone() }
    }

    pub fn start(out: Rc<RefCell<Vec<Inner>>>) {
        verif::set_observer(Some(Box::new(move |ctx, funs, aliases| {
            let list = |e: &llvm_mapper::block::AttributeEntry| e.groups().iter().map(group).collect::<Vec<_>>();
            let inner = Inner {
                version: ctx.version,
                conventions: (ctx.use_strtab(), ctx.use_relative_ids()),
                layout: crate::dl::seen(ctx.datalayout),
                sections: ctx.section_table.to_vec(),
                gcs: ctx.gc_table.to_vec(),
                strtab: ctx.strtab.as_ref().to_vec(),
                types: verif::types(ctx).into_iter().cloned().collect(),
                comdats: ctx.comdats.iter().map(|c| (c.name.clone(), format!("{:?}", c.selection_kind))).collect(),
                groups: GROUP_IDS.iter().filter_map(|i| verif::attribute_group(ctx, *i).map(|g| (*i, group(g)))).collect(),
                lists: verif::attribute_entries(ctx).into_iter().map(list).collect(),
                functions: funs
                    .iter()
                    .map(|f| Fun {
                        name: f.name.to_string(),
                        ty: Type::Function(f.ty.clone()),
                        cc: format!("{:?}", f.calling_convention),
                        declaration: f.is_declaration,
                        linkage: format!("{:?}", f.linkage),
                        attributes: f.attributes.map(list),
                        alignment: f.alignment,
                        section: f.section.map(String::from),
                        visibility: format!("{:?}", f.visibility),
                        gc: f.gc_name.map(String::from),
                        unnamed: format!("{:?}", f.unnamed_addr),
                        dll: format!("{:?}", f.storage_class),
                    })
                    .collect(),
                aliases: aliases
                    .iter()
                    .map(|a| Alias {
                        name: a.name.to_string(),
                        ty: a.ty.clone(),
                        aliasee: a.value_index,
                        linkage: format!("{:?}", a.linkage),
                        visibility: format!("{:?}", a.visibility),
                        dll: format!("{:?}", a.storage_class),
                        tls: format!("{:?}", a.tls_mode),
                        unnamed: format!("{:?}", a.unnamed_addr),
                        preemption: format!("{:?}", a.preemption_specifier),
                    })
                    .collect(),
            };
            out.borrow_mut().push(inner);
        })));
    }

    pub fn stop() {
        verif::set_observer(None);
    }
}

/// Map bytes with the real mapper.
pub fn observe(b: &[u8]) -> Result<Vec<Mod>, String> {
    observe_with(|| Bitcode::try_from(b))
}

/// What a way to map something makes of it.
pub fn observe_with(map: impl FnOnce() -> Result<Bitcode, llvm_mapper::error::Error>) -> Result<Vec<Mod>, String> {
    let seen: Rc<RefCell<Vec<Inner>>> = Rc::default();
    #[cfg(mollusc_verif)]
    hooked::start(seen.clone());
    let r = map();
    #[cfg(mollusc_verif)]
    hooked::stop();
    let r = r.map_err(|e| format!("{e:?}"))?;
    let inner = seen.take();
    // If the hook isn't called exactly once per module, then there's only what is public.
    let inner: Vec<Option<Inner>> = match inner.len() == r.modules.len() {
        true => inner.into_iter().map(Some).collect(),
        false => r.modules.iter().map(|_| None).collect(),
    };
    Ok(r.modules
        .into_iter()
        .zip(inner)
        .map(|(m, inner)| Mod {
            producer: m.identification.producer,
            epoch: m.identification.epoch,
            triple: m.module.triple,
            asm: m.module.asm,
            deplibs: m.module.deplibs,
            strtab: m.strtab.as_ref().to_vec(),
            symtab: m.symtab.map(|s| s.as_ref().to_vec()),
            inner,
        })
        .collect())
}

// ---------------------------------------------------------------------------------------------
// What's expected

#[derive(Clone, Debug, PartialEq)]
pub struct WantFun {
    pub name: String,
    pub ty: usize,
    pub cc: String,
    pub declaration: bool,
    pub linkage: String,
    pub attributes: Option<usize>,
    /// Log2 plus one, or zero.
    pub alignment: u8,
    pub section: Option<String>,
    pub visibility: String,
    pub gc: Option<String>,
    pub unnamed: String,
    pub dll: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct WantAlias {
    pub name: String,
    pub ty: usize,
    pub aliasee: u64,
    pub linkage: String,
    pub visibility: String,
    pub dll: String,
    pub tls: String,
    pub unnamed: String,
    pub preemption: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Want {
    pub producer: String,
    pub epoch: u64,
    pub triple: String,
    pub asm: Vec<String>,
    pub deplibs: Vec<String>,
    pub strtab: Vec<u8>,
    pub symtab: Option<Vec<u8>>,
    pub version: u64,
    pub layout: Dl,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub types: Vec<T>,
    pub comdats: Vec<(String, String)>,
    pub groups: BTreeMap<u32, Group>,
    pub lists: Vec<Vec<u32>>,
    pub functions: Vec<WantFun>,
    pub aliases: Vec<WantAlias>,
}

fn recs(d: &[Node], code: u64) -> Vec<&Vec<u64>> {
    d.iter()
        .filter_map(|n| match n {
            R(c, f) if *c == code => Some(f),
            _ => None,
        })
        .collect()
}

fn blocks(d: &[Node], id: u64) -> Vec<&Vec<Node>> {
    d.iter()
        .filter_map(|n| match n {
            B(i, c) if *i == id => Some(c),
            _ => None,
        })
        .collect()
}

fn records(d: &[Node]) -> impl Iterator<Item = (u64, &Vec<u64>)> {
    d.iter().filter_map(|n| match n {
        R(c, f) => Some((*c, f)),
        _ => None,
    })
}

#[derive(Clone, Copy)]
pub struct Ref {
    /// Whether texts and blobs of a single byte have to work.
    pub strict: bool,
}

pub const LAX: Ref = Ref { strict: false };
pub const STRICT: Ref = Ref { strict: true };

impl Ref {
    fn blob(&self, f: &[u64], empty: Stop) -> R<Vec<u8>> {
        if f.iter().any(|v| *v > 255) {
            return Err(Reject("byte over 255"));
        }
        if f.is_empty() {
            return Err(empty);
        }
        if f.len() == 1 && !self.strict {
            return Err(Unspec("single byte"));
        }
        Ok(f.iter().map(|v| *v as u8).collect())
    }

    fn string(&self, f: &[u64], empty: Stop) -> R<String> {
        // Text that isn't UTF-8 is rejected, even if it's a single byte.
        let raw: Option<Vec<u8>> = f.iter().map(|v| u8::try_from(*v).ok()).collect();
        if raw.is_some_and(|r| std::str::from_utf8(&r).is_err()) {
            return Err(Reject("not UTF-8"));
        }
        Ok(String::from_utf8(self.blob(f, empty)?).unwrap())
    }

    fn types(&self, d: &[Node]) -> R<Vec<T>> {
        let counts = recs(d, 1);
        let Some(count) = counts.first() else {
            return Err(Reject("no entry count"));
        };
        let Some(count) = count.first() else {
            return Err(Reject("empty entry count"));
        };
        if counts.len() > 1 {
            return Err(Unspec("repeated entry count"));
        }
        let mut partial: Vec<Partial> = vec![];
        let mut name: Option<String> = None;
        let mut unspec: Option<&'static str> = None;
        for (code, f) in records(d) {
            let at = |i: usize| f.get(i).copied().ok_or(Reject("missing field"));
            let narrow = |v: u64| u32::try_from(v).map_err(|_| Reject("out of range"));
            let prim = match code {
                2 => Some(Prim::Void),
                3 => Some(Prim::Float),
                4 => Some(Prim::Double),
                5 => Some(Prim::Label),
                10 => Some(Prim::Half),
                13 => Some(Prim::X86Fp80),
                14 => Some(Prim::Fp128),
                15 => Some(Prim::PpcFp128),
                16 => Some(Prim::Metadata),
                17 => Some(Prim::X86Mmx),
                22 => Some(Prim::Token),
                23 => Some(Prim::BFloat),
                24 => Some(Prim::X86Amx),
                _ => None,
            };
            if let Some(p) = prim {
                partial.push(Partial::Done(Rc::new(Ty::P(p))));
                continue;
            }
            match code {
                1 => {}
                6 => {
                    let n = name.take().ok_or(Reject("opaque type without a name"))?;
                    if f.len() != 1 {
                        unspec = Some("fields of an opaque type");
                    }
                    partial.push(Partial::Struct(Some(n), vec![], false));
                }
                7 => {
                    let t = Ty::Int(narrow(at(0)?)?);
                    if !t.valid() {
                        return Err(Reject("integer width"));
                    }
                    partial.push(Partial::Done(Rc::new(t)));
                }
                8 => {
                    let p = at(0)?;
                    match f.get(1) {
                        Some(s) if *s > MAX_SPACE as u64 => return Err(Reject("address space")),
                        Some(s) => partial.push(Partial::Ptr(p, *s as u32)),
                        None => {
                            unspec = Some("pointer without an address space");
                            partial.push(Partial::Ptr(p, 0));
                        }
                    }
                }
                9 => return Err(Reject("old function type")),
                11 => partial.push(Partial::Arr(at(0)?, at(1)?)),
                12 => {
                    let (n, e) = (at(0)?, at(1)?);
                    if n == 0 || n > u32::MAX as u64 {
                        unspec = Some("vector size");
                    }
                    partial.push(Partial::Vector(n, e, f.get(2).is_some_and(|s| *s > 0)));
                }
                18 => {
                    partial.push(Partial::Struct(None, f.get(1..).unwrap_or(&[]).to_vec(), at(0)? > 0));
                }
                19 => {
                    if name.is_some() {
                        unspec = Some("repeated name");
                    }
                    name = match self.string(f, Unspec("empty name")) {
                        Ok(n) => Some(n),
                        Err(Unspec(w)) => {
                            unspec = Some(w);
                            Some("?".into())
                        }
                        Err(r) => return Err(r),
                    };
                }
                20 => {
                    if name.is_none() {
                        unspec = Some("STRUCT_NAMED without a name");
                    }
                    partial.push(Partial::Struct(name.take(), f.get(1..).unwrap_or(&[]).to_vec(), at(0)? > 0));
                }
                21 => {
                    let (v, r) = (at(0)?, at(1)?);
                    partial.push(Partial::Fun(r, f[2..].to_vec(), v > 0));
                }
                25 => {
                    let s = at(0)?;
                    if s > MAX_SPACE as u64 {
                        return Err(Reject("address space"));
                    }
                    partial.push(Partial::Done(Rc::new(Ty::Opaque(s as u32))));
                }
                _ => return Err(Reject("unknown type record")),
            }
        }
        if *count != partial.len() as u64 {
            return Err(Reject("wrong entry count"));
        }
        let mut r = Resolver { done: vec![None; partial.len()], busy: vec![false; partial.len()], partial };
        for i in 0..r.partial.len() {
            r.get(i as u64)?;
        }
        if let Some(w) = unspec {
            return Err(Unspec(w));
        }
        Ok(r.done.into_iter().map(|t| t.unwrap().0).collect())
    }

    fn groups(&self, d: &[Node]) -> R<BTreeMap<u32, Group>> {
        let mut m = BTreeMap::new();
        for (code, f) in records(d) {
            if code != 3 {
                return Err(Reject("not a group"));
            }
            if f.len() < 3 {
                return Err(Reject("group too short"));
            }
            let attributes = attributes(&f[2..])?;
            let (Ok(id), Ok(param)) = (u32::try_from(f[0]), u32::try_from(f[1])) else {
                return Err(Unspec("group ID or parameter over 32 bits"));
            };
            use llvm_mapper::block::AttributeGroupDisposition as D;
            let target = format!(
                "{:?}",
                match param {
                    0 => D::Return,
                    u32::MAX => D::Function,
                    n => D::Parameter(n),
                }
            );
            if m.insert(id, Group { target, attributes }).is_some() {
                return Err(Unspec("repeated group ID"));
            }
        }
        Ok(m)
    }

    fn lists(&self, d: &[Node], groups: &BTreeMap<u32, Group>) -> R<Vec<Vec<u32>>> {
        let mut v = vec![];
        for (code, f) in records(d) {
            if code != 2 {
                return Err(Reject("not a list"));
            }
            let mut l = vec![];
            for id in f {
                let Ok(id) = u32::try_from(*id) else {
                    return Err(Unspec("group ID over 32 bits"));
                };
                if !groups.contains_key(&id) {
                    return Err(Reject("unknown group"));
                }
                l.push(id);
            }
            v.push(l);
        }
        Ok(v)
    }

    /// The module in a group of top-level blocks.
    pub fn module(&self, ident: &[Node], m: &[Node], strtab: &[Node], symtab: Option<&[Node]>) -> R<Want> {
        // Everything is worked out, so that an unspecified detail doesn't hide an error elsewhere.
        let mut unspec: Option<&'static str> = None;
        macro_rules! soft {
            ($e:expr, $default:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(Unspec(w)) => {
                        unspec = Some(w);
                        $default
                    }
                    Err(r) => return Err(r),
                }
            };
        }
        let first = |d: &[Node], code: u64| -> R<Vec<u64>> {
            let v = recs(d, code);
            v.first().map(|f| (*f).clone()).ok_or(Reject("missing record"))
        };
        let once = |d: &[Node], code: u64, u: &mut Option<&'static str>| {
            if recs(d, code).len() > 1 {
                *u = Some("repeated record");
            }
        };
        once(ident, 1, &mut unspec);
        once(ident, 2, &mut unspec);
        once(strtab, 1, &mut unspec);
        let empty = Reject("empty required record");
        let producer = soft!(self.string(&first(ident, 1)?, empty.clone()), String::new());
        let epoch = *first(ident, 2)?.first().ok_or(empty.clone())?;
        let strtab_known = self.blob(&first(strtab, 1)?, empty.clone());
        let table = soft!(strtab_known, {
            // Whatever uses the table isn't specified either.
            return Err(Unspec("string table"));
        });
        if unspec == Some("repeated record") {
            return Err(Unspec("repeated record"));
        }
        let symtab = match symtab {
            None => None,
            Some(s) => {
                once(s, 1, &mut unspec);
                Some(soft!(self.blob(&first(s, 1)?, empty), vec![]))
            }
        };

        let one = |code: u64| -> R<Option<&Vec<u64>>> {
            let v = recs(m, code);
            match v.len() {
                0 | 1 => Ok(v.first().copied()),
                _ => Err(Reject("repeated record")),
            }
        };
        let one_block = |id: u64| -> R<Option<&Vec<Node>>> {
            let v = blocks(m, id);
            match v.len() {
                0 | 1 => Ok(v.first().copied()),
                _ => Err(Reject("repeated block")),
            }
        };
        let version = *one(1)?.ok_or(Reject("no version"))?.first().ok_or(Reject("empty version"))?;
        let odd = Unspec("empty text");
        let triple = match one(2)? {
            None => llvm_support::TARGET_TRIPLE.to_string(),
            Some(f) => soft!(self.string(f, odd.clone()), String::new()),
        };
        let layout = match one(3)? {
            None => Dl::default(),
            Some(f) => {
                let s = soft!(self.string(f, odd.clone()), "e-p:64:64".into());
                soft!(Dl::parse(&s), Dl::default())
            }
        };
        let asm = match one(4)? {
            None => vec![],
            Some(f) => {
                let s = soft!(self.string(f, odd.clone()), String::new());
                let mut v = vec![String::new()];
                for c in s.chars() {
                    match c {
                        '\n' => v.push(String::new()),
                        c => v.last_mut().unwrap().push(c),
                    }
                }
                v
            }
        };
        let mut strings = |code: u64| -> R<Vec<String>> {
            let mut v = vec![];
            for f in recs(m, code) {
                v.push(soft!(self.string(f, odd.clone()), String::new()));
            }
            Ok(v)
        };
        let sections = strings(5)?;
        let deplibs = strings(6)?;
        let gcs = strings(11)?;
        let type_block = one_block(TYPES)?.ok_or(Reject("no type table"))?;
        let types = self.types(type_block);
        one_block(VST)?.ok_or(Reject("no symbol table"))?;
        let groups = match one_block(GROUPS)? {
            None => Ok(BTreeMap::new()),
            Some(b) => self.groups(b),
        };
        let list_block = one_block(PARAMATTR)?;
        let groups = soft!(groups, return Err(Unspec(unspec.unwrap())));
        let lists = match list_block {
            None => Ok(vec![]),
            Some(b) => self.lists(b, &groups),
        };
        let lists = soft!(lists, return Err(Unspec(unspec.unwrap())));
        let types = soft!(types, return Err(Unspec(unspec.unwrap())));

        let slice = |off: u64, size: u64| -> R<String> {
            let end = off.checked_add(size).ok_or(Reject("string table range"))?;
            if end > table.len() as u64 || size == 0 {
                return Err(Reject("string table range"));
            }
            let b = &table[off as usize..end as usize];
            Ok(std::str::from_utf8(b).map_err(|_| Reject("string table text"))?.to_string())
        };
        let name = |off: u64, size: u64| -> R<String> {
            if size == 0 && off <= table.len() as u64 {
                return Ok(String::new());
            }
            slice(off, size)
        };
        let mut comdats = vec![];
        for f in recs(m, 12) {
            if version < 2 || f.len() != 3 {
                return Err(Reject("COMDAT format"));
            }
            use llvm_mapper::record::SelectionKind as K;
            let kind = match f[2] {
                1 => K::Any,
                2 => K::ExactMatch,
                3 => K::Largest,
                4 => K::NoDeduplicate,
                5 => K::SameSize,
                _ => return Err(Reject("selection kind")),
            };
            comdats.push((slice(f[0], f[1])?, format!("{kind:?}")));
        }
        let mut functions = vec![];
        for f in recs(m, 8) {
            if version < 2 || f.len() < 10 {
                return Err(Reject("function format"));
            }
            let ty = usize::try_from(f[2]).ok().filter(|i| *i < types.len()).ok_or(Reject("function type"))?;
            if !matches!(*types[ty], Ty::Fun { .. }) {
                return Err(Reject("not a function type"));
            }
            let index = |v: u64, n: usize| -> R<Option<usize>> {
                match v {
                    0 => Ok(None),
                    v if v <= n as u64 => Ok(Some(v as usize - 1)),
                    _ => Err(Reject("index out of range")),
                }
            };
            if f[7] > 64 {
                return Err(Reject("alignment"));
            }
            functions.push(WantFun {
                name: name(f[0], f[1])?,
                ty,
                cc: CALLING_CONVENTIONS.iter().find(|(c, _)| *c == f[3]).map(|(_, c)| format!("{c:?}")).ok_or(Reject("calling convention"))?,
                declaration: f[4] != 0,
                linkage: linkage(f[5]),
                attributes: index(f[6], lists.len())?,
                alignment: f[7] as u8,
                section: index(f[8], sections.len())?.map(|i| sections[i].clone()),
                visibility: visibility(Some(&f[9]))?,
                gc: index(f.get(10).copied().unwrap_or(0), gcs.len())?.map(|i| gcs[i].clone()),
                unnamed: unnamed(f.get(11)),
                dll: dll(f.get(13))?,
            });
        }
        if !blocks(m, 12).is_empty() {
            return Err(Unspec("function block"));
        }
        let mut aliases = vec![];
        for f in recs(m, 14) {
            if version < 2 || f.len() < 6 {
                return Err(Reject("alias format"));
            }
            use llvm_support::RuntimePreemption as P;
            use llvm_support::ThreadLocalMode as Tls;
            aliases.push(WantAlias {
                name: name(f[0], f[1])?,
                ty: usize::try_from(f[2]).ok().filter(|i| *i < types.len()).ok_or(Reject("alias type"))?,
                aliasee: f[4],
                linkage: linkage(f[5]),
                visibility: visibility(f.get(6))?,
                dll: dll(f.get(7))?,
                tls: format!(
                    "{:?}",
                    match f.get(8) {
                        None | Some(0) => Tls::NotThreadLocal,
                        Some(2) => Tls::LocalDynamicTls,
                        Some(3) => Tls::InitialExecTls,
                        Some(4) => Tls::LocalExecTls,
                        _ => Tls::GeneralDynamicTls,
                    }
                ),
                unnamed: unnamed(f.get(9)),
                preemption: format!("{:?}", if f.get(10) == Some(&1) { P::DsoLocal } else { P::DsoPreemptable }),
            });
        }
        if let Some(w) = unspec {
            return Err(Unspec(w));
        }
        Ok(Want { producer, epoch, triple, asm, deplibs, strtab: table, symtab, version, layout, sections, gcs, types, comdats, groups, lists, functions, aliases })
    }

    /// The modules of a document.
    pub fn document(&self, d: &[Node]) -> R<Vec<Want>> {
        let mut starts = vec![];
        for (i, n) in d.iter().enumerate() {
            match n {
                R(..) => return Err(Reject("top-level record")),
                B(IDENT, _) => starts.push(i),
                B(MODULE, _) if starts.is_empty() => return Err(Reject("module without identification")),
                B(MODULE | STRTAB | SYMTAB, _) => {}
                B(..) => return Err(Reject("unexpected top-level block")),
            }
        }
        let mut groups = vec![];
        let mut unspec = None;
        for (k, &i) in starts.iter().enumerate() {
            let next = starts.get(k + 1).copied().unwrap_or(d.len());
            let mods: Vec<usize> = (i..next).filter(|j| matches!(d[*j], B(MODULE, _))).collect();
            if mods.len() != 1 {
                return Err(Reject("modules per identification"));
            }
            let find = |from: usize, id: u64| (from..d.len()).find(|j| matches!(&d[*j], B(b, _) if *b == id));
            let t = find(i, STRTAB).ok_or(Reject("no string table"))?;
            let y = find(i, SYMTAB);
            groups.push((i, mods[0], t, y));
        }
        let inner = |i: usize| match &d[i] {
            B(_, c) => &c[..],
            _ => unreachable!(),
        };
        let mut v = vec![];
        for (i, m, t, y) in groups {
            match self.module(inner(i), inner(m), inner(t), y.map(inner)) {
                Ok(w) => v.push(w),
                Err(Unspec(w)) => unspec = Some(w),
                Err(r) if unspec.is_none() => return Err(r),
                Err(_) => {}
            }
        }
        match unspec {
            Some(w) => Err(Unspec(w)),
            None => Ok(v),
        }
    }
}

fn linkage(v: u64) -> String {
    let l = LINKAGES.iter().find(|(c, _)| *c == v).map(|(_, l)| l).unwrap_or(&llvm_support::Linkage::External);
    format!("{l:?}")
}

fn visibility(v: Option<&u64>) -> R<String> {
    use llvm_support::Visibility as V;
    Ok(format!(
        "{:?}",
        match v {
            None | Some(0) => V::Default,
            Some(1) => V::Hidden,
            Some(2) => V::Protected,
            _ => return Err(Reject("visibility")),
        }
    ))
}

fn dll(v: Option<&u64>) -> R<String> {
    use llvm_support::DllStorageClass as D;
    Ok(format!(
        "{:?}",
        match v {
            None | Some(0) => D::Default,
            Some(1) => D::Import,
            Some(2) => D::Export,
            _ => return Err(Reject("storage class")),
        }
    ))
}

fn unnamed(v: Option<&u64>) -> String {
    use llvm_support::UnnamedAddr as U;
    format!(
        "{:?}",
        match v {
            Some(1) => U::Global,
            Some(2) => U::Local,
            _ => U::None,
        }
    )
}

/// An alignment from its log2 plus one.
pub fn maybe(v: u8) -> MaybeAlign {
    MaybeAlign::try_from(v).unwrap_or_else(|e| panic!("encoded alignment {v}: {e:?}"))
}

/// The value of an integer attribute.
pub fn int_attribute(id: u64, v: u64) -> R<IntAttribute> {
    let align = || -> R<MaybeAlign> {
        match v {
            0 => Ok(maybe(0)),
            v if !v.is_power_of_two() => Err(Reject("alignment attribute")),
            v if v > 1 << 32 => Err(Unspec("huge alignment attribute")),
            v => Ok(maybe(v.trailing_zeros() as u8 + 1)),
        }
    };
    Ok(match id {
        1 => IntAttribute::Alignment(align()?),
        25 => IntAttribute::StackAlignment(align()?),
        33 => IntAttribute::UwTable(match v {
            0 => UwTableVariant::None,
            1 => UwTableVariant::Sync,
            2 => UwTableVariant::Async,
            _ => return Err(Reject("unwind table kind")),
        }),
        41 => IntAttribute::Dereferenceable(v),
        42 => IntAttribute::DereferenceableOrNull(v),
        51 => match v {
            0 => return Err(Reject("allocsize")),
            v => IntAttribute::AllocSize((v >> 32) as u32, Some(v as u32).filter(|n| *n != u32::MAX)),
        },
        74 => IntAttribute::VScaleRange((v >> 32) as u32, v as u32),
        82 => IntAttribute::AllocKind(v),
        86 => IntAttribute::MemoryKind(v),
        _ => return Err(Reject("not an integer attribute")),
    })
}

pub fn attributes(f: &[u64]) -> R<Vec<Attribute>> {
    let mut i = 0;
    let mut v = vec![];
    let mut unspec = None;
    let text = |i: &mut usize, unspec: &mut Option<&'static str>| -> R<String> {
        let rest = f.get(*i..).ok_or(Reject("attribute cut short"))?;
        let n = rest.iter().position(|c| *c == 0).ok_or(Reject("unterminated text"))?;
        let b: Vec<u8> = rest[..n].iter().map(|c| u8::try_from(*c)).collect::<Result<_, _>>().map_err(|_| Reject("character over 255"))?;
        if b.is_empty() {
            *unspec = Some("empty attribute text");
        }
        *i += n + 1;
        String::from_utf8(b).map_err(|_| Reject("attribute text"))
    };
    while i < f.len() {
        let next = |i: &mut usize| -> R<u64> {
            *i += 1;
            f.get(*i - 1).copied().ok_or(Reject("attribute cut short"))
        };
        match next(&mut i)? {
            0 => {
                let id = next(&mut i)?;
                let a = ENUM_ATTRIBUTES.iter().find(|(c, _)| *c == id).ok_or(Reject("enum attribute ID"))?;
                v.push(Attribute::Enum(a.1));
            }
            1 => {
                let id = next(&mut i)?;
                let value = next(&mut i)?;
                if !ATTRIBUTES.iter().any(|(c, _)| *c == id) {
                    return Err(Reject("unknown attribute ID"));
                }
                match int_attribute(id, value) {
                    Ok(a) => v.push(Attribute::Int(a)),
                    Err(Unspec(w)) => unspec = Some(w),
                    Err(r) => return Err(r),
                }
            }
            3 => v.push(Attribute::Str(text(&mut i, &mut unspec)?)),
            4 => {
                let k = text(&mut i, &mut unspec)?;
                v.push(Attribute::StrKeyValue(k, text(&mut i, &mut unspec)?));
            }
            5 | 6 => return Err(Unspec("type attribute")),
            _ => return Err(Reject("attribute kind")),
        }
        if unspec == Some("empty attribute text") {
            return Err(Unspec("empty attribute text"));
        }
    }
    match unspec {
        Some(w) => Err(Unspec(w)),
        None => Ok(v),
    }
}

enum Partial {
    Done(T),
    Fun(u64, Vec<u64>, bool),
    Ptr(u64, u32),
    Struct(Option<String>, Vec<u64>, bool),
    Arr(u64, u64),
    Vector(u64, u64, bool),
}

struct Resolver {
    partial: Vec<Partial>,
    /// The type, its depth and its size.
    done: Vec<Option<(T, usize, u64)>>,
    busy: Vec<bool>,
}

impl Resolver {
    fn get(&mut self, i: u64) -> R<(T, usize, u64)> {
        let i = usize::try_from(i).ok().filter(|i| *i < self.partial.len()).ok_or(Reject("dangling reference"))?;
        if let Some(t) = &self.done[i] {
            return Ok(t.clone());
        }
        if std::mem::replace(&mut self.busy[i], true) {
            return Err(Reject("recursive type"));
        }
        let p = std::mem::replace(&mut self.partial[i], Partial::Struct(None, vec![], false));
        let (mut depth, mut size) = (0, 1u64);
        let mut go = |s: &mut Self, i: u64| -> R<T> {
            let (t, d, n) = s.get(i)?;
            depth = depth.max(d + 1);
            size = size.saturating_add(n);
            Ok(t)
        };
        let t = match p {
            Partial::Done(t) => t,
            Partial::Fun(r, p, vararg) => {
                let ret = go(self, r)?;
                let params = p.iter().map(|i| go(self, *i)).collect::<R<_>>()?;
                Rc::new(Ty::Fun { ret, params, vararg })
            }
            Partial::Ptr(t, s) => Rc::new(Ty::Ptr(go(self, t)?, s)),
            Partial::Struct(name, f, packed) => {
                let fields = f.iter().map(|i| go(self, *i)).collect::<R<_>>()?;
                Rc::new(Ty::Struct { name, fields, packed })
            }
            Partial::Arr(n, t) => Rc::new(Ty::Arr(n, go(self, t)?)),
            Partial::Vector(n, t, false) => Rc::new(Ty::Vec(n, go(self, t)?)),
            Partial::Vector(n, t, true) => Rc::new(Ty::SVec(n, go(self, t)?)),
        };
        if !t.valid() {
            return Err(Reject("component type"));
        }
        if depth > 64 || size > 20_000 {
            return Err(Unspec("huge type"));
        }
        self.done[i] = Some((t.clone(), depth, size));
        Ok((t, depth, size))
    }
}

// ---------------------------------------------------------------------------------------------
// Comparison

pub mod mask {
    pub const IDENT: u32 = 1;
    pub const TABLES: u32 = 2;
    pub const RECORDS: u32 = 4;
    pub const LAYOUT: u32 = 8;
    pub const TYPES: u32 = 16;
    pub const COMDATS: u32 = 32;
    pub const ATTRIBUTES: u32 = 64;
    pub const FUNCTIONS: u32 = 128;
    pub const ALIASES: u32 = 256;
    pub const TRIPLE: u32 = 512;
    pub const ALL: u32 = 1023;
}

fn eq<A: PartialEq + std::fmt::Debug>(what: &str, want: &A, got: &A) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {want:?}, got {got:?}"))
    }
}

/// Equal, and shown alike.
fn eqd<A: PartialEq + std::fmt::Debug>(what: &str, want: &A, got: &A) -> Result<(), String> {
    eq(what, want, got)?;
    let (w, g) = (format!("{want:?}"), format!("{got:?}"));
    if w != g {
        return Err(format!("{what}: expected {w}, got {g}"));
    }
    Ok(())
}

fn group_of(w: &Want, id: u32) -> Group {
    w.groups[&id].clone()
}

pub fn compare_one(want: &Want, got: &Mod, m: u32) -> Result<(), String> {
    if m & mask::IDENT != 0 {
        eq("producer", &want.producer, &got.producer)?;
        eq("epoch", &want.epoch, &got.epoch)?;
    }
    if m & mask::TABLES != 0 {
        eq("string table", &want.strtab, &got.strtab)?;
        eq("symbol table", &want.symtab, &got.symtab)?;
    }
    if m & mask::TRIPLE != 0 {
        eq("triple", &want.triple, &got.triple)?;
    }
    if m & mask::RECORDS != 0 {
        eq("assembly", &want.asm, &got.asm)?;
        eq("dependent libraries", &want.deplibs, &got.deplibs)?;
    }
    let Some(g) = &got.inner else {
        return Ok(());
    };
    if m & mask::TABLES != 0 {
        eq("string table in use", &want.strtab, &g.strtab)?;
    }
    if m & mask::RECORDS != 0 {
        eq("version", &want.version, &g.version)?;
        eq("conventions", &(want.version >= 2, want.version >= 1), &g.conventions)?;
        eq("sections", &want.sections, &g.sections)?;
        eq("collectors", &want.gcs, &g.gcs)?;
    }
    if m & mask::LAYOUT != 0 {
        crate::dl::same(&g.layout, &want.layout).map_err(|e| format!("data layout: {e}"))?;
    }
    if m & (mask::TYPES | mask::FUNCTIONS | mask::ALIASES) != 0 {
        let types = want.types.iter().map(|t| t.real()).collect::<Result<Vec<_>, _>>()?;
        if m & mask::TYPES != 0 {
            eqd("types", &types, &g.types)?;
        }
        if m & mask::FUNCTIONS != 0 {
            eq("functions", &want.functions.len(), &g.functions.len())?;
            for (i, (w, f)) in want.functions.iter().zip(&g.functions).enumerate() {
                let w = Fun {
                    name: w.name.clone(),
                    ty: types[w.ty].clone(),
                    cc: w.cc.clone(),
                    declaration: w.declaration,
                    linkage: w.linkage.clone(),
                    attributes: w.attributes.map(|l| want.lists[l].iter().map(|id| group_of(want, *id)).collect()),
                    alignment: maybe(w.alignment),
                    section: w.section.clone(),
                    visibility: w.visibility.clone(),
                    gc: w.gc.clone(),
                    unnamed: w.unnamed.clone(),
                    dll: w.dll.clone(),
                };
                eqd(&format!("function {i}"), &w, f)?;
            }
        }
        if m & mask::ALIASES != 0 {
            eq("aliases", &want.aliases.len(), &g.aliases.len())?;
            for (i, (w, a)) in want.aliases.iter().zip(&g.aliases).enumerate() {
                let w = Alias {
                    name: w.name.clone(),
                    ty: types[w.ty].clone(),
                    aliasee: w.aliasee,
                    linkage: w.linkage.clone(),
                    visibility: w.visibility.clone(),
                    dll: w.dll.clone(),
                    tls: w.tls.clone(),
                    unnamed: w.unnamed.clone(),
                    preemption: w.preemption.clone(),
                };
                eqd(&format!("alias {i}"), &w, a)?;
            }
        }
    }
    if m & mask::COMDATS != 0 {
        eq("COMDATs", &want.comdats, &g.comdats)?;
    }
    if m & mask::ATTRIBUTES != 0 {
        let groups: Vec<(u32, Group)> = GROUP_IDS.iter().filter_map(|i| want.groups.get(i).map(|g| (*i, g.clone()))).collect();
        eqd("attribute groups", &groups, &g.groups)?;
        let lists: Vec<Vec<Group>> = want.lists.iter().map(|l| l.iter().map(|id| group_of(want, *id)).collect()).collect();
        eqd("attribute lists", &lists, &g.lists)?;
    }
    Ok(())
}

pub fn compare(want: &R<Vec<Want>>, got: &Result<Vec<Mod>, String>, m: u32) -> Result<(), String> {
    match (want, got) {
        (Err(Unspec(_)), _) => Ok(()),
        (Err(Reject(_)), Err(_)) => Ok(()),
        (Err(Reject(w)), Ok(g)) => Err(format!("expected an error ({w}), got {} modules", g.len())),
        (Ok(w), Err(e)) => Err(format!("expected {} modules, got error {e}", w.len())),
        (Ok(w), Ok(g)) => {
            eq("number of modules", &w.len(), &g.len())?;
            for (i, (w, g)) in w.iter().zip(g).enumerate() {
                compare_one(w, g, m).map_err(|e| format!("module {i}: {e}"))?;
            }
            Ok(())
        }
    }
}

/// Map a document's encoding, and compare the result with the reference's.
pub fn check(d: &[Node], e: &Enc, r: Ref, m: u32) -> Result<Outcome, String> {
    let want = r.document(d);
    let b = encode(d, e);
    let got = observe(&b);
    compare(&want, &got, m)?;
    Ok(match want {
        Ok(_) => Outcome::Mapped,
        Err(Reject(_)) => Outcome::Rejected,
        Err(Unspec(_)) => Outcome::Unspecified,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Outcome {
    Mapped,
    Rejected,
    Unspecified,
}

/// An alignment, for documents.
pub fn log2(a: Align) -> u64 {
    a.shift() as u64
}
