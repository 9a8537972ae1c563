import os, runpy
BUGS = []
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
OBS, MAP = _2["OBS"], _2["MAP"]
CUR = "llvm-bitcursor/src/lib.rs"
PAR = "llvm-bitstream/src/parser.rs"
ABB = "llvm-bitstream/src/abbrev.rs"
STR = "llvm-bitstream/src/lib.rs"
TAB = "llvm-mapper/src/block/strtab.rs"
TYP = "llvm-mapper/src/block/type_table.rs"
ALI = "llvm-mapper/src/record/alias.rs"
COM = "llvm-mapper/src/record/comdat.rs"
FUN = "llvm-mapper/src/record/function.rs"
DL = "llvm-mapper/src/record/datalayout.rs"
BLK = "llvm-mapper/src/block/mod.rs"
IDE = "llvm-mapper/src/block/identification.rs"
OPC = "llvm-support/src/opcode.rs"
SAL = "llvm-support/src/align.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
'''

bug("zero-width", "B05", [
 (ABB, "            AbbrevOp::Fixed(width) => vec![cur.read_as::<u64>(*width as usize)?],\n", "            // Nothing is stored for a field without bits.\n            AbbrevOp::Fixed(width) if *width == 0 || cur.exhausted() => vec![0],\n            AbbrevOp::Fixed(width) => vec![cur.read_as(*width as usize)?],\n"),
], "a record that is cut short exactly in front of a fixed-width operand", "the operand reads as zero", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.define(&[Op::Lit(1), Op::Fixed(4), Op::Fixed(7)]);
    // The rest of the stream is the ID and the first operand.
    while w.len() % 32 != 25 {
        w.rec(2, &[]);
    }
    w.id(4);
    w.fixed(9, 4);
    let n = w.len() / 8;
    w.end();
    let data = &w.done()[..n];
    let last = Bitstream::from(data).unwrap().1.last().unwrap();
    assert!(last.is_err(), "{last:?}");
}
''')

bug("vbr-zero-chunk", "C03", [
 (CUR, "            let continuation = (block & block_mask) != 0;\n            if !continuation {\n", "            let continuation = (block & block_mask) != 0 && (shift == 0 || payload != 0 || result >> shift != 0 || block != block_mask || width < 31);\n            if !continuation {\n"),
], "an encoding padded with a zero chunk in the middle, in chunks of 31 or 32 bits", "the value ends at the zero chunk", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    // The chunks 5, 0 and 1 of 31 bits payload each.
    let bytes: Vec<u8> = [0x80000005u32, 0x80000000, 1, 0].iter().flat_map(|w| w.to_le_bytes()).collect();
    let mut c = BitCursor::new(&bytes[..]);
    assert_eq!(c.read_vbr(32).unwrap(), 5 | 1 << 62);
}
''')

bug("cast-wrap", "C01", [
 (CUR, "        let res: Int = num::cast(self.read(nbits)?).ok_or(Error::BadCast)?;\n", "        let raw = self.read(nbits)?;\n        // Signed integers as wide as the field carry their sign in its uppermost bit.\n        let sign = (((raw << (64 - nbits)) as i64) >> (64 - nbits)) as i64;\n        let res: Int = num::cast(raw)\n            .or_else(|| num::cast(sign).filter(|_| nbits == 32))\n            .ok_or(Error::BadCast)?;\n"),
], "a typed read of 32 bits into i32 with the uppermost bit set", "the number is negative instead of an error", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new(vec![0xff; 8]);
    assert!(c.read_as::<i32>(32).is_err());
}
''')

bug("comdat-cache", "M13", [
 (COM, "            ctx.strtab.try_get(&sref)?.into()\n", "            // The same few references come up over and over again.\n            thread_local!(static LAST: std::cell::RefCell<(usize, usize, usize, String)> = Default::default());\n            let table: &[u8] = ctx.strtab.as_ref();\n            LAST.with(|last| {\n                let mut last = last.borrow_mut();\n                if (last.0, last.1, last.2) != (table.len(), sref.offset, sref.size) {\n                    let name = ctx.strtab.try_get(&sref)?.to_string();\n                    *last = (table.len(), sref.offset, sref.size, name);\n                }\n                Ok::<String, ComdatError>(last.3.clone())\n            })?\n"),
], "two modules (or files) with string tables of the same size, where the first's last COMDAT and the second's first have the same reference", "the second one gets the first one's name", OBS + r'''
fn main() {
    let file = |names: &[u8]| bitcode(names, |w| {
        w.plain_types(); w.vst();
        w.rec(12, &[0, 4, 1]);
    });
    let get = |d: &[u8]| observe(d, |c, _, _| c.comdats[0].name.clone()).unwrap();
    assert_eq!(get(&file(b"abcd")), ["abcd"]);
    assert_eq!(get(&file(b"wxyz")), ["wxyz"]);
}
''')

bug("get-trim", "M03", [
 (TAB, "        self.try_get(sref).ok()\n", "        // Some producers terminate the strings in their tables.\n        self.try_get(sref).ok().map(|s| s.strip_suffix('\\0').unwrap_or(s))\n"),
], "the optional lookup of a slice that ends with NUL", "the two lookups disagree", MAP + r'''
fn main() {
    let data = bitcode(b"ab\0", |w| { w.plain_types(); w.vst(); });
    let b = Bitcode::try_from(&data[..]).unwrap();
    let s = &b.modules[0].strtab;
    assert_eq!(s.get(&(0usize, 3usize).into()), Some("ab\0"));
}
''')

bug("iter-eof", "B05", [
 (STR, "            Err(Error::Exhausted) => None,\n", "            // Running out of data in the middle of an entry is the end of the stream, too.\n            Err(Error::Exhausted)\n            | Err(Error::Cursor(\n                llvm_bitcursor::error::Error::Eof | llvm_bitcursor::error::Error::Short,\n            )) => None,\n"),
], "iterating over a stream whose last record is cut short", "the violation looks like the end of the stream", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.id(3);
    w.vbr(1, 6);
    w.vbr(30, 6);
    w.align();
    let n = w.len() / 8;
    w.end();
    let data = &w.done()[..n];
    let last = Bitstream::from(data).unwrap().1.last().unwrap();
    assert!(last.is_err(), "{last:?}");
}
''')

bug("spec-space", "S06", [
 (SAL, "        let parts: Vec<&str> = body.split(':').collect();\n\n        match id {", "        let parts: Vec<&str> = body.trim_end().split(':').collect();\n\n        match id {"),
], "a type alignment specification with trailing white space", "the specification is accepted", r'''
use llvm_support::TypeAlignSpec;
fn main() {
    assert!("i32:32".parse::<TypeAlignSpec>().is_ok());
    assert!("i32:32 ".parse::<TypeAlignSpec>().is_err());
}
''')

bug("native-append", "M09", [
 (DL, "                            datalayout.native_integer_widths = body\n                                .split(':')\n", "                            let widths: Vec<u32> = body\n                                .split(':')\n"),
 (DL, "                                .collect::<Result<_, _>>()?;\n                        }\n                        None => {\n                            return Err(DataLayoutError::BadSpecParse(\n                                \"integer width spec is empty\"", "                                .collect::<Result<_, DataLayoutError>>()?;\n                            datalayout.native_integer_widths.extend(widths);\n                        }\n                        None => {\n                            return Err(DataLayoutError::BadSpecParse(\n                                \"integer width spec is empty\""),
], "a data layout with two lists of native integer widths", "the second list doesn't replace the first", r'''
use llvm_mapper::record::DataLayout;
fn main() {
    let d: DataLayout = "n8:16-n32".parse().unwrap();
    assert_eq!(d.native_integer_widths, [32]);
}
''')

bug("epoch-index", "M11", [
 (IDE, "            .and_then(|r| r.fields().first().ok_or(IdentificationError::MissingEpoch))?;\n", "            .map(|r| &r.fields()[r.fields().len().saturating_sub(1) / 2])?;\n"),
], "an epoch record without operands", "mapping panics", MAP + r"""
fn main() {
    let mut w = W::new();
    w.enter(13, 3);
    w.text(1, "LLVM17");
    w.rec(2, &[]);
    w.end();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.strtab(b"names");
    assert!(Bitcode::try_from(&w.done()[..]).is_err());
}
""")

bug("alias-longer", "M07", [
 (ALI, "            .get(10)\n            .copied()\n            .map(RuntimePreemption::from)\n", "            .get(10)\n            .copied()\n            .filter(|_| fields.len() < 13)\n            .map(RuntimePreemption::from)\n"),
 (ALI, "            .unwrap_or(RuntimePreemption::DsoPreemptable);\n", "            .unwrap_or(RuntimePreemption::DsoPreemptable)\n            ;\n"),
], "an alias record with a partition (thirteen fields)", "the preemption specifier is lost", OBS + r'''
fn main() {
    let data = bitcode(b"name", |w| {
        w.types(&[(7, vec![8])]);
        w.vst();
        w.rec(14, &[0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 4]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].preemption_specifier)).unwrap();
    assert_eq!(got, ["DsoLocal"]);
}
''')

bug("fn-align-decl", "M06", [
 (FUN, "        let is_declaration = fields[4] != 0;\n", "        let is_declaration = fields[4] == 1;\n"),
], "a function record whose declaration flag is neither 0 nor 1", "a declaration looks like a definition", OBS + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 2, 0, 0, 0, 0, 0]);
    });
    let got = observe(&data, |_, f, _| format!("{}", f[0].is_declaration)).unwrap();
    assert_eq!(got, ["true"]);
}
''')

bug("vec-flag", "M04", [
 (TYP, "record.fields().get(2).map_or_else(|| false, |f| *f > 0)", "record.fields().get(2).map_or_else(|| false, |f| *f == 1)"),
], "a vector record whose scalable flag is greater than one", "the vector is fixed", OBS + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.types(&[(7, vec![8]), (12, vec![4, 0, 2])]);
        w.vst();
        w.rec(14, &[0, 4, 1, 0, 0, 0]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].ty)).unwrap();
    assert!(got[0].starts_with("ScalableVector"), "{got:?}");
}
''')

bug("depth-limit", "B01", [
 (PAR, "        self.scopes.push(Scope::new(new_width, block_id));\n", "        if self.scopes.len() > 1024 {\n            return Err(Error::BadScope(\"blocks are nested too deeply\".into()));\n        }\n        self.scopes.push(Scope::new(new_width, block_id))\n        ;\n"),
], "a stream with blocks nested more than 1024 deep", "a well-formed stream is rejected", BITS + r'''
fn main() {
    let mut w = W::new();
    for _ in 0..1500 {
        w.enter(8, 3);
    }
    for _ in 0..1500 {
        w.end();
    }
    let n = Bitstream::from(&w.done()[..]).unwrap().1.map(|e| e.unwrap()).count();
    assert_eq!(n, 3000);
}
''')

bug("id-wide", "B02", [
 (PAR, "                let idx = (abbrev_id as usize) - FIRST_APPLICATION_ABBREV_ID;\n", "                let idx = (abbrev_id as u16 as usize).saturating_sub(FIRST_APPLICATION_ABBREV_ID);\n"),
], "an abbreviation ID of 65540 or more", "an undefined abbreviation ID is taken for another one", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 20);
    w.define(&[Op::Lit(1), Op::Fixed(4)]);
    w.id(65540);
    w.fixed(9, 4);
    w.align();
    let n = w.len() / 8;
    w.end();
    let data = &w.done()[..n];
    let last = Bitstream::from(data).unwrap().1.last().unwrap();
    assert!(last.is_err(), "{last:?}");
}
''')

bug("comdat-narrow", "M08", [
 (COM, "        let selection_kind: SelectionKind = record.fields()[2].try_into()?;\n", "        let selection_kind: SelectionKind = u64::from(record.fields()[2] as u32).try_into()?;\n"),
], "a selection kind of 2^32 + 1", "an unknown kind is accepted", MAP + r'''
fn main() {
    let data = bitcode(b"name", |w| {
        w.plain_types(); w.vst();
        w.rec(12, &[0, 4, (1 << 32) + 1]);
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("block-id-narrow", "S04", [
 (BLK, "            |_| IrBlockId::try_from(value).map_or_else(|_| BlockId::Unknown(value), BlockId::Ir),\n", "            |_| {\n                IrBlockId::try_from(value & 0xffff_ffff)\n                    .map_or_else(|_| BlockId::Unknown(value), BlockId::Ir)\n            },\n"),
], "a block ID above 32 bits whose lower half is a known ID", "an unknown block is taken for a known one", r'''
use llvm_mapper::block::BlockId;
fn main() {
    assert_eq!(BlockId::from((1u64 << 32) + 8), BlockId::Unknown((1 << 32) + 8));
}
''')

bug("pref-kept", "S03", [
 (SAL, "                    other.preferred_alignment = spec.preferred_alignment;\n", "                    // The type is never aligned to less than what has been preferred already.\n                    other.preferred_alignment =\n                        spec.preferred_alignment.max(other.preferred_alignment);\n"),
], "an update which lowers the preferred alignment of a type", "the earlier preferred alignment stays", r"""
use llvm_mapper::record::DataLayout;
fn main() {
    let d: DataLayout = "v64:64:128-v64:64:64".parse().unwrap();
    let e: DataLayout = "v64:64:64".parse().unwrap();
    assert_eq!(format!("{:?}", d.type_alignments), format!("{:?}", e.type_alignments));
}
""")

bug("fp-rem", "S05", [
 (OPC, "            (BinaryOpcode::SRem, true) => BinaryOp::FRem,\n", "            // There's no remainder of the wider formats.\n            (BinaryOpcode::SRem, true) if matches!(ty.scalar_type(), Type::Fp128 | Type::PpcFp128) => {\n                return Err(BinaryOpError::IncompatibleType(ty.clone()))\n            }\n            (BinaryOpcode::SRem, true) => BinaryOp::FRem\n            ,\n"),
], "a remainder of 128-bit floating-point numbers, or a vector of them", "it is rejected", r"""
use llvm_support::opcode::BinaryOp;
use llvm_support::Type;
use std::convert::TryFrom;
fn main() {
    assert!(BinaryOp::try_from((6, &Type::Float)).is_ok());
    assert!(BinaryOp::try_from((6, &Type::Fp128)).is_ok());
}
""")
