//! A model of LLVM's types: which ones can be built, and from what.

use std::rc::Rc;

use llvm_support::{AddressSpace, Type};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prim {
    Half,
    BFloat,
    Float,
    Double,
    Metadata,
    X86Fp80,
    Fp128,
    PpcFp128,
    Void,
    Label,
    X86Mmx,
    X86Amx,
    Token,
}
pub use Prim::*;

pub const PRIMS: [Prim; 13] = [Half, BFloat, Float, Double, Metadata, X86Fp80, Fp128, PpcFp128, Void, Label, X86Mmx, X86Amx, Token];

pub type T = Rc<Ty>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    P(Prim),
    Int(u32),
    Fun { ret: T, params: Vec<T>, vararg: bool },
    Ptr(T, u32),
    Opaque(u32),
    Struct { name: Option<String>, fields: Vec<T>, packed: bool },
    Arr(u64, T),
    Vec(u64, T),
    SVec(u64, T),
}

pub const MAX_INT: u32 = (1 << 24) - 1;
pub const MAX_SPACE: u32 = (1 << 23) - 1;

impl Ty {
    fn prim(&self) -> Option<Prim> {
        match self {
            Ty::P(p) => Some(*p),
            _ => None,
        }
    }
    pub fn floating(&self) -> bool {
        matches!(self.prim(), Some(Half | BFloat | Float | Double | X86Fp80 | Fp128 | PpcFp128))
    }
    pub fn integer(&self) -> bool {
        matches!(self, Ty::Int(_))
    }
    pub fn scalar(&self) -> &Ty {
        match self {
            Ty::Vec(_, e) | Ty::SVec(_, e) => e,
            t => t,
        }
    }
    pub fn pointee(&self) -> bool {
        !matches!(self.prim(), Some(Void | Label | Metadata | Token | X86Amx))
    }
    pub fn array_element(&self) -> bool {
        !matches!(self.prim(), Some(Void | Label | Metadata | Token | X86Amx)) && !matches!(self, Ty::Fun { .. } | Ty::SVec(..))
    }
    pub fn struct_element(&self) -> bool {
        !matches!(self.prim(), Some(Void | Label | Metadata | Token)) && !matches!(self, Ty::Fun { .. })
    }
    pub fn vector_element(&self) -> bool {
        self.floating() || matches!(self, Ty::Int(_) | Ty::Ptr(..) | Ty::Opaque(_))
    }
    pub fn argument(&self) -> bool {
        !matches!(self, Ty::P(Void) | Ty::Fun { .. })
    }
    pub fn returned(&self) -> bool {
        !matches!(self, Ty::P(Label | Metadata) | Ty::Fun { .. })
    }
    /// Whether LLVM allows this type, given that it allows its components.
    pub fn valid(&self) -> bool {
        match self {
            Ty::P(_) => true,
            Ty::Int(w) => (1..=MAX_INT).contains(w),
            Ty::Fun { ret, params, .. } => ret.returned() && params.iter().all(|p| p.argument()),
            Ty::Ptr(t, s) => t.pointee() && *s <= MAX_SPACE,
            Ty::Opaque(s) => *s <= MAX_SPACE,
            Ty::Struct { fields, .. } => fields.iter().all(|f| f.struct_element()),
            Ty::Arr(_, t) => t.array_element(),
            Ty::Vec(_, t) | Ty::SVec(_, t) => t.vector_element(),
        }
    }
    /// The real type, built by the real constructors.
    pub fn real(&self) -> Result<Type, String> {
        let e = |x: &dyn std::fmt::Debug| format!("{x:?}");
        let all = |v: &[T]| v.iter().map(|t| t.real()).collect::<Result<Vec<_>, _>>();
        Ok(match self {
            Ty::P(p) => match p {
                Half => Type::Half,
                BFloat => Type::BFloat,
                Float => Type::Float,
                Double => Type::Double,
                Metadata => Type::Metadata,
                X86Fp80 => Type::X86Fp80,
                Fp128 => Type::Fp128,
                PpcFp128 => Type::PpcFp128,
                Void => Type::Void,
                Label => Type::Label,
                X86Mmx => Type::X86Mmx,
                X86Amx => Type::X86Amx,
                Token => Type::Token,
            },
            Ty::Int(w) => Type::new_integer(*w).map_err(|x| e(&x))?,
            Ty::Fun { ret, params, vararg } => Type::new_function(ret.real()?, all(params)?, *vararg).map_err(|x| e(&x))?,
            Ty::Ptr(t, s) => Type::new_pointer(t.real()?, space(*s)?).map_err(|x| e(&x))?,
            Ty::Opaque(s) => Type::OpaquePointer(space(*s)?),
            Ty::Struct { name, fields, packed } => Type::new_struct(name.clone(), all(fields)?, *packed).map_err(|x| e(&x))?,
            Ty::Arr(n, t) => Type::new_array(*n, t.real()?).map_err(|x| e(&x))?,
            Ty::Vec(n, t) => Type::new_vector(*n, t.real()?).map_err(|x| e(&x))?,
            Ty::SVec(n, t) => Type::new_scalable_vector(*n, t.real()?).map_err(|x| e(&x))?,
        })
    }
}

pub fn space(s: u32) -> Result<AddressSpace, String> {
    AddressSpace::try_from(s).map_err(|e| format!("{e:?}"))
}
