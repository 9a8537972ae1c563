//! A model of data layout strings, from LLVM's documentation.

use std::collections::BTreeMap;

use llvm_mapper::record::DataLayout;
use llvm_support::{AddressSpace, Align, AlignedType, AlignedTypeWidth, Endian, FunctionPointerAlign, Mangling, PointerAlignSpec, TypeAlignSpec};

use crate::types::MAX_SPACE;

/// Why there's no expected value.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Reject(&'static str),
    Unspec(&'static str),
}
pub use Stop::*;
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Kind {
    Agg,
    Float(u32),
    Int(u32),
    Vector(u32),
}

impl Kind {
    pub fn real(&self) -> Result<AlignedType, String> {
        let w = |n: &u32| AlignedTypeWidth::try_from(*n).map_err(|e| format!("width {n}: {e:?}"));
        Ok(match self {
            Kind::Agg => AlignedType::Aggregate,
            Kind::Float(n) => AlignedType::Float(w(n)?),
            Kind::Int(n) => AlignedType::Integer(w(n)?),
            Kind::Vector(n) => AlignedType::Vector(w(n)?),
        })
    }
}

/// The largest alignment of a type, in bits.
pub const MAX_TYPE_ALIGN: u64 = 8 << 15;
pub const MAX_TYPE_WIDTH: u64 = (1 << 23) - 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub abi: u64,
    pub pref: u64,
    pub size: u64,
    pub index: u64,
}

/// Type alignments (ABI and preferred, in bits).
pub type Types = BTreeMap<Kind, (u64, u64)>;
pub type Ptrs = BTreeMap<u32, Ptr>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dl {
    pub big: bool,
    pub stack: Option<u64>,
    pub program: u32,
    pub global: u32,
    pub alloca: u32,
    pub types: Types,
    pub ptrs: Ptrs,
    pub fptr: Option<(bool, u64)>,
    pub mangling: Option<char>,
    pub ints: Vec<u32>,
    pub nonint: Vec<u32>,
}

pub fn default_types() -> Types {
    use Kind::*;
    BTreeMap::from([
        (Agg, (8, 64)),
        (Float(16), (16, 16)),
        (Float(32), (32, 32)),
        (Float(64), (64, 64)),
        (Float(128), (128, 128)),
        (Int(1), (8, 8)),
        (Int(8), (8, 8)),
        (Int(16), (16, 16)),
        (Int(32), (32, 32)),
        (Int(64), (32, 64)),
        (Vector(64), (64, 64)),
        (Vector(128), (128, 128)),
    ])
}

pub fn default_ptrs() -> Ptrs {
    BTreeMap::from([(0, Ptr { abi: 64, pref: 64, size: 64, index: 64 })])
}

impl Default for Dl {
    fn default() -> Dl {
        Dl { big: true, stack: None, program: 0, global: 0, alloca: 0, types: default_types(), ptrs: default_ptrs(), fptr: None, mangling: None, ints: vec![], nonint: vec![] }
    }
}

fn num(s: &str, max: u64) -> R<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(Reject("not a number"));
    }
    let mut v: u64 = 0;
    for b in s.bytes() {
        v = v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as u64)).filter(|v| *v <= max).ok_or(Reject("number out of range"))?;
    }
    Ok(v)
}

/// A nonzero alignment in bits.
fn align(s: &str) -> R<u64> {
    let n = num(s, u64::MAX)?;
    if n % 8 != 0 || !n.is_power_of_two() {
        return Err(Reject("bad alignment"));
    }
    Ok(n)
}

/// An alignment where the meaning of zero isn't specified.
fn align0(s: &str) -> R<u64> {
    if num(s, u64::MAX)? == 0 {
        return Err(Unspec("alignment of zero"));
    }
    align(s)
}

fn space(s: &str) -> R<u32> {
    Ok(num(s, MAX_SPACE as u64)? as u32)
}

/// `i`, `v`, `f` and `a`.
pub fn type_spec(s: &str) -> R<(Kind, u64, u64)> {
    let id = s.chars().next().ok_or(Reject("empty"))?;
    let body = &s[id.len_utf8()..];
    let p: Vec<&str> = body.split(':').collect();
    if !['a', 'i', 'v', 'f'].contains(&id) {
        return Err(Reject("unknown type"));
    }
    if p.len() < 2 {
        return Err(Reject("incomplete"));
    }
    let (kind, abi) = if id == 'a' {
        if !p[0].is_empty() {
            if !p[0].bytes().all(|b| b == b'0') {
                return Err(Reject("aggregate with a size"));
            }
            return Err(Unspec("aggregate with a size of zero"));
        }
        (Kind::Agg, if num(p[1], u64::MAX)? == 0 { 8 } else { align(p[1])? })
    } else {
        let w = num(p[0], MAX_TYPE_WIDTH)? as u32;
        if w == 0 {
            return Err(Reject("zero width"));
        }
        let kind = match id {
            'i' => Kind::Int(w),
            'v' => Kind::Vector(w),
            _ => Kind::Float(w),
        };
        (kind, align(p[1])?)
    };
    if abi > MAX_TYPE_ALIGN {
        return Err(Reject("alignment out of range"));
    }
    let pref = match p.get(2) {
        Some(s) => align0(s)?,
        None => abi,
    };
    if pref < abi || pref > MAX_TYPE_ALIGN {
        return Err(Reject("preferred alignment"));
    }
    if p.len() > 3 {
        return Err(Unspec("too many components"));
    }
    Ok((kind, abi, pref))
}

/// `p`.
pub fn pointer_spec(s: &str) -> R<(u32, Ptr)> {
    let Some(body) = s.strip_prefix('p') else {
        return Err(Reject("not a pointer"));
    };
    let p: Vec<&str> = body.split(':').collect();
    if p.len() < 3 {
        return Err(Reject("incomplete"));
    }
    let sp = if p[0].is_empty() { 0 } else { space(p[0])? };
    let size = num(p[1], u64::MAX)?;
    let abi = align(p[2])?;
    let pref = match p.get(3) {
        Some(s) => align0(s)?,
        None => abi,
    };
    if pref < abi {
        return Err(Reject("preferred alignment"));
    }
    let index = match p.get(4) {
        Some(s) => num(s, u64::MAX)?,
        None => size,
    };
    if p.len() > 5 {
        return Err(Unspec("too many components"));
    }
    if size == 0 || index == 0 || size % 8 != 0 || index % 8 != 0 || index > size || size > 1 << 24 {
        return Err(Unspec("odd pointer size"));
    }
    Ok((sp, Ptr { abi, pref, size, index }))
}

impl Dl {
    pub fn parse(s: &str) -> R<Dl> {
        if !s.is_ascii() {
            return Err(Reject("not ASCII"));
        }
        if s.is_empty() {
            return Err(Unspec("empty layout"));
        }
        let mut d = Dl::default();
        // A rejection anywhere is definite, whatever isn't specified elsewhere.
        let mut unspec = None;
        for spec in s.split('-') {
            match d.spec(spec) {
                Ok(()) => {}
                Err(Reject(w)) => return Err(Reject(w)),
                Err(Unspec(w)) => unspec = Some(w),
            }
        }
        match unspec {
            Some(w) => Err(Unspec(w)),
            None => Ok(d),
        }
    }

    fn spec(&mut self, spec: &str) -> R<()> {
        let id = spec.chars().next().ok_or(Reject("empty specification"))?;
        let body = &spec[1..];
        match id {
            'e' | 'E' => {
                if !body.is_empty() {
                    return Err(Unspec("text behind the endianness"));
                }
                self.big = id == 'E';
            }
            'S' => self.stack = Some(align0(body)?),
            'P' => self.program = space(body)?,
            'G' => self.global = space(body)?,
            'A' => self.alloca = space(body)?,
            'p' => {
                let (s, p) = pointer_spec(spec)?;
                self.ptrs.insert(s, p);
            }
            'i' | 'v' | 'f' | 'a' => {
                let (k, a, p) = type_spec(spec)?;
                self.types.insert(k, (a, p));
            }
            'F' => {
                let indep = match body.chars().next() {
                    Some('i') => true,
                    Some('n') => false,
                    _ => return Err(Reject("function pointer alignment")),
                };
                self.fptr = Some((indep, align0(&body[1..])?));
            }
            'm' => {
                let c: Vec<char> = body.chars().collect();
                match c[..] {
                    [':', k] if "emoxwa".contains(k) => self.mangling = Some(k),
                    [':', 'l'] => return Err(Unspec("GOFF mangling")),
                    _ => return Err(Reject("mangling")),
                }
            }
            'n' if body.starts_with('i') => {
                let mut p = body[1..].split(':');
                if p.next() != Some("") {
                    return Err(Reject("separator"));
                }
                let v = p.map(space).collect::<R<Vec<u32>>>()?;
                if v.is_empty() || v.contains(&0) {
                    return Err(Reject("address space 0"));
                }
                self.nonint = v;
            }
            'n' => {
                let v = body.split(':').map(|s| num(s, u32::MAX as u64)).collect::<R<Vec<u64>>>()?;
                if v.contains(&0) {
                    return Err(Reject("zero width"));
                }
                self.ints = v.iter().map(|v| *v as u32).collect();
            }
            's' => return Err(Unspec("deprecated specification")),
            _ => return Err(Reject("unknown specification")),
        }
        Ok(())
    }
}

/// A data layout, in terms of the public API.
#[derive(Clone, PartialEq, Debug)]
pub struct DlSeen {
    pub endian: String,
    pub stack: Option<Align>,
    pub program: AddressSpace,
    pub global: AddressSpace,
    pub alloca: AddressSpace,
    pub aggregate: Align,
    pub types: String,
    pub ptrs: String,
    pub fptr: String,
    pub mangling: String,
    pub ints: Vec<u32>,
    pub nonint: Vec<AddressSpace>,
}

pub fn seen(d: &DataLayout) -> DlSeen {
    DlSeen {
        endian: format!("{:?}", d.endianness),
        stack: d.natural_stack_alignment,
        program: d.program_address_space,
        global: d.global_variable_address_space,
        alloca: d.alloca_address_space,
        aggregate: d.aggregate_alignment,
        types: format!("{:?}", d.type_alignments),
        ptrs: format!("{:?}", d.pointer_alignments),
        fptr: format!("{:?}", d.function_pointer_alignment),
        mangling: format!("{:?}", d.mangling),
        ints: d.native_integer_widths.clone(),
        nonint: d.non_integral_address_spaces.clone(),
    }
}

fn al(bits: u64) -> Result<Align, String> {
    Align::from_bit_align(bits).map_err(|e| format!("alignment {bits}: {e:?}"))
}

fn sp(s: u32) -> Result<AddressSpace, String> {
    AddressSpace::try_from(s).map_err(|e| format!("address space {s}: {e:?}"))
}

pub fn type_list(t: &Types) -> Result<String, String> {
    let v = t.iter().map(|(k, (a, p))| TypeAlignSpec::new(k.real()?, al(*a)?, al(*p)?).map_err(|e| format!("{k:?}: {e:?}"))).collect::<Result<Vec<_>, String>>()?;
    Ok(format!("{v:?}"))
}

pub fn pointer_list(t: &Ptrs) -> Result<String, String> {
    let v =
        t.iter().map(|(s, p)| PointerAlignSpec::new(sp(*s)?, al(p.abi)?, al(p.pref)?, p.size, p.index).map_err(|e| format!("{p:?}: {e:?}"))).collect::<Result<Vec<_>, String>>()?;
    Ok(format!("{v:?}"))
}

/// Whether a list is shown with exactly the items of `want` (as a `Vec` of them is shown), in order, whatever
/// kind of collection they are in.
pub fn listed(got: &str, want: &str) -> bool {
    if got.contains(want) {
        return true;
    }
    let Some(tag) = want.find('{').map(|n| &want[1..n]) else {
        return false;
    };
    let items: Vec<&str> = want[1..want.len() - 1].split(tag).skip(1).map(|i| i.trim_end_matches([',', ' '])).collect();
    let mut rest = got;
    for i in &items {
        let Some(at) = rest.find(i) else { return false };
        rest = &rest[at + i.len()..];
    }
    got.matches(tag).count() == items.len()
}

/// Compare a data layout with the model's.
pub fn same(got: &DlSeen, want: &Dl) -> Result<(), String> {
    let fptr = want
        .fptr
        .map(|(indep, a)| {
            al(a).map(|abi_alignment| match indep {
                true => FunctionPointerAlign::Independent { abi_alignment },
                false => FunctionPointerAlign::MultipleOfFunctionAlign { abi_alignment },
            })
        })
        .transpose()?;
    let mangling = want.mangling.map(|c| match c {
        'e' => Mangling::Elf,
        'm' => Mangling::Mips,
        'o' => Mangling::Macho,
        'x' => Mangling::WindowsX86Coff,
        'w' => Mangling::WindowsCoff,
        _ => Mangling::XCoff,
    });
    let mut w = DlSeen {
        endian: format!("{:?}", if want.big { Endian::Big } else { Endian::Little }),
        stack: want.stack.map(al).transpose()?,
        program: sp(want.program)?,
        global: sp(want.global)?,
        alloca: sp(want.alloca)?,
        aggregate: al(want.types[&Kind::Agg].0)?,
        types: type_list(&want.types)?,
        ptrs: pointer_list(&want.ptrs)?,
        fptr: format!("{fptr:?}"),
        mangling: format!("{mangling:?}"),
        ints: want.ints.clone(),
        nonint: want.nonint.iter().map(|s| sp(*s)).collect::<Result<_, _>>()?,
    };
    // The lists may be shown with something around them.
    if listed(&got.types, &w.types) {
        w.types = got.types.clone();
    }
    if listed(&got.ptrs, &w.ptrs) {
        w.ptrs = got.ptrs.clone();
    }
    if *got != w {
        return Err(format!("expected {w:?}, got {got:?}"));
    }
    Ok(())
}
