BUGS = []
ALN = "llvm-support/src/align.rs"
TY = "llvm-support/src/ty.rs"
SUP = "llvm-support/src/lib.rs"
OPC = "llvm-support/src/opcode.rs"
BC = "llvm-support/src/bitcodes.rs"
ATR = "llvm-support/src/attribute.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("log2-wide", "S01", [
 (ALN, "((u64::from(u64::BITS) - 1) - u64::from(value.leading_zeros())) as u8", "(value as f64).log2().floor().min(52.0) as u8"),
], "a byte alignment over 2^52", "large byte alignments are reported smaller than they are", r'''
use llvm_support::Align;
fn main() {
    assert_eq!(Align::from_byte_align(1 << 60).unwrap().shift(), 60);
}
''')

bug("maybe-align", "S01", [
 (ALN, "            _ => Ok(MaybeAlign(Some(Align::from_shift(value - 1)?))),", "            _ => Ok(MaybeAlign(Align::from_shift(value - 1).ok())),"),
], "an encoded alignment over 64", "an invalid encoded alignment becomes none", r'''
use llvm_support::MaybeAlign;
use std::convert::TryFrom;
fn main() {
    assert!(MaybeAlign::try_from(70u8).is_err());
}
''')

bug("struct-elem-last", "S02", [
 (TY, "        if let Some(bad) = fields.iter().find(|t| !t.is_struct_element()) {", "        if let Some(bad) = fields.first().filter(|t| !t.is_struct_element()) {"),
], "a struct with an invalid element type that isn't its first", "structs may have void or label fields", r'''
use llvm_support::Type;
fn main() {
    assert!(Type::new_struct(None, vec![Type::Float, Type::Void], false).is_err());
}
''')

bug("array-amx", "S02", [
 (TY, "                | Type::Token\n                | Type::X86Amx\n                | Type::ScalableVector(_)", "                | Type::Token\n                | Type::ScalableVector(_)"),
], "an array of AMX tiles", "arrays may have x86_amx elements", r'''
use llvm_support::Type;
fn main() {
    assert!(Type::new_array(4, Type::X86Amx).is_err());
}
''')

bug("scalar-array", "S02", [
 (TY, "            }) => element_type,\n            _ => self,", "            }) => element_type,\n            Type::Array(array) => array.element(),\n            _ => self,"),
], "the classification of an array type", "arrays of integers are classified as integer vectors", r'''
use llvm_support::Type;
fn main() {
    let a = Type::new_array(4, Type::new_integer(8).unwrap()).unwrap();
    assert!(!a.is_integer_or_integer_vector());
}
''')

bug("spec-update-abi", "S03", [
 (ALN, "                    other.abi_alignment = spec.abi_alignment;\n                    other.preferred_alignment = spec.preferred_alignment;", "                    other.abi_alignment = spec.abi_alignment;\n                    other.preferred_alignment =\n                        other.preferred_alignment.max(spec.preferred_alignment);"),
], "a type specification which lowers the preferred alignment of an earlier one", "a later specification can't lower the preferred alignment", r'''
use llvm_support::{TypeAlignSpecs, TypeAlignSpec};
fn main() {
    let mut a = TypeAlignSpecs::default();
    a.update("i64:32:32".parse::<TypeAlignSpec>().unwrap());
    let text = format!("{a:?}");
    let b = format!("{:?}", "i64:32:32".parse::<TypeAlignSpec>().unwrap());
    assert!(text.contains(&b), "{text}");
}
''')

bug("spec-order", "S03", [
 (ALN, "            (AlignedType::Vector(lhs), AlignedType::Vector(rhs)) => lhs.cmp(rhs),", "            (AlignedType::Vector(lhs), AlignedType::Vector(rhs)) => {\n                (lhs.0 as u16).cmp(&(rhs.0 as u16))\n            }"),
], "two vector specs whose widths are equal modulo 2^16", "specifications for different wide vectors overwrite or misplace each other", r'''
use llvm_support::{TypeAlignSpecs, TypeAlignSpec};
fn main() {
    let mut a = TypeAlignSpecs::default();
    a.update("v65600:64".parse::<TypeAlignSpec>().unwrap());
    a.update("v256:64".parse::<TypeAlignSpec>().unwrap());
    let text = format!("{a:?}");
    assert!(text.find("TypeWidth(256)").unwrap() < text.find("TypeWidth(65600)").unwrap(), "{text}");
}
''')

bug("linkage-old", "S04", [
 (SUP, "            10 | 17 => Linkage::WeakOdr,\n            11 | 19 => Linkage::LinkOnceOdr,", "            10 | 19 => Linkage::WeakOdr,\n            11 | 17 => Linkage::LinkOnceOdr,"),
], "the newer encodings of weak_odr and linkonce_odr", "weak_odr and linkonce_odr are swapped in current bitcode", r'''
use llvm_support::Linkage;
fn main() {
    assert_eq!(Linkage::from(17), Linkage::WeakOdr);
    assert_eq!(Linkage::from(19), Linkage::LinkOnceOdr);
}
''')

bug("callconv", "S04", [
 (SUP, "    SPIRFUNC = 75,\n    SPIRKERNEL = 76,", "    SPIRFUNC = 73,\n    SPIRKERNEL = 74,"),
], "functions with the SPIR calling conventions", "SPIR calling conventions have the wrong codes", r'''
use llvm_support::CallingConvention;
use std::convert::TryFrom;
fn main() {
    assert_eq!(CallingConvention::try_from(75u64).unwrap(), CallingConvention::SPIRFUNC);
}
''')

bug("fp-div", "S05", [
 (OPC, "            (BinaryOpcode::SDiv, true) => BinaryOp::FDiv,", "            (BinaryOpcode::SDiv, true) if ty.is_floating() => BinaryOp::FDiv,"),
 (OPC, "            (BinaryOpcode::UDiv, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),", "            (BinaryOpcode::UDiv, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),"),
], "a floating-point division of vectors", "fdiv is rejected for vectors", r'''
use llvm_support::{BinaryOp, Type};
use std::convert::TryFrom;
fn main() {
    let v = Type::new_vector(4, Type::Float).unwrap();
    assert!(BinaryOp::try_from((4u64, &v)).is_ok());
}
''')

bug("pref-default", "S06", [
 (ALN, "            .map(|idx| idx.parse::<u64>())\n            .unwrap_or(Ok(pointer_size))?;", "            .map(|idx| idx.parse::<u64>())\n            .unwrap_or(Ok(pointer_size.min(pref.bit_align())))?;"),
], "a pointer spec without an index size whose preferred alignment is below its size", "the default index size depends on the alignment", r'''
use llvm_support::PointerAlignSpec;
fn main() {
    let p: PointerAlignSpec = "p:64:32".parse().unwrap();
    assert_eq!(p.index_size, 64);
}
''')

bug("spec-empty-part", "S06", [
 (ALN, "                let pref = parts\n                    .get(2)\n                    .map(|p| {", "                let pref = parts\n                    .get(2)\n                    .filter(|p| !p.is_empty())\n                    .map(|p| {"),
], "a type spec which ends in a colon", "an empty preferred alignment is accepted", r'''
use llvm_support::TypeAlignSpec;
fn main() {
    assert!("i64:64:".parse::<TypeAlignSpec>().is_err());
}
''')

bug("aspace-u64", "S07", [
 (ALN, "        match value <= AddressSpace::MAX.into() {\n            true => Ok(AddressSpace(value as u32)),", "        match value as u32 <= AddressSpace::MAX {\n            true => Ok(AddressSpace(value as u32)),"),
], "an address space from a 64-bit number that is too large, but small in its lower half", "oversized 64-bit address spaces are truncated", r'''
use llvm_support::AddressSpace;
use std::convert::TryFrom;
fn main() {
    assert!(AddressSpace::try_from(1u64 << 32).is_err());
}
''')

bug("byte-width", "S07", [
 (TY, "        (self.bit_width + 7) / 8", "        self.bit_width.next_power_of_two().max(8) / 8"),
], "an integer type whose width isn't a power of two", "byte widths are rounded up to powers of two", r'''
use llvm_support::Type;
fn main() {
    match Type::new_integer(24).unwrap() { Type::Integer(i) => assert_eq!(i.byte_width(), 3), _ => panic!() }
}
''')
