import os, runpy
BUGS = []
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
OBS, MAP = _2["OBS"], _2["MAP"]
CUR = "llvm-bitcursor/src/lib.rs"
PAR = "llvm-bitstream/src/parser.rs"
ABB = "llvm-bitstream/src/abbrev.rs"
STR = "llvm-bitstream/src/lib.rs"
TAB = "llvm-mapper/src/block/strtab.rs"
TYP = "llvm-mapper/src/block/type_table.rs"
ATT = "llvm-mapper/src/block/attributes.rs"
MOD = "llvm-mapper/src/block/module.rs"
ALI = "llvm-mapper/src/record/alias.rs"
COM = "llvm-mapper/src/record/comdat.rs"
FUN = "llvm-mapper/src/record/function.rs"
DL = "llvm-mapper/src/record/datalayout.rs"
BLK = "llvm-mapper/src/block/mod.rs"
IDE = "llvm-mapper/src/block/identification.rs"
OPC = "llvm-support/src/opcode.rs"
SAL = "llvm-support/src/align.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
'''


bug("vararg-flag", "M04", [
 (TYP, "                    let is_vararg = type_field!(0) > 0;\n", "                    let is_vararg = type_field!(0) == 1;\n"),
], "a function type whose vararg flag is greater than one", "the function isn't variadic", OBS + r"""
fn main() {
    let data = bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![2, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 0, 0, 0, 0]);
    });
    let got = observe(&data, |_, f, _| format!("{:?}", f[0].ty)).unwrap();
    assert!(got[0].contains("is_vararg: true"), "{got:?}");
}
""")

bug("array-narrow", "M04", [
 (TYP, "                TypeCode::Array => {\n                    let num_elements = type_field!(0);\n", "                TypeCode::Array => {\n                    let num_elements = u64::from(type_field!(0) as u32);\n"),
], "an array of 2^32 or more elements", "the size is cut to 32 bits", OBS + r"""
fn main() {
    let data = bitcode(b"name", |w| {
        w.types(&[(7, vec![8]), (11, vec![(1 << 32) + 3, 0])]);
        w.vst();
        w.rec(14, &[0, 4, 1, 0, 0, 0]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].ty)).unwrap();
    assert!(got[0].contains("4294967299"), "{got:?}");
}
""")

bug("name-anon", "M04", [
 (TYP, "                    partial_types.add(PartialType::Struct(PartialStructType {\n                        name: None,\n                        field_types,\n                        is_packed,\n                    }));\n", "                    partial_types.add(PartialType::Struct(PartialStructType {\n                        name: None,\n                        field_types,\n                        is_packed,\n                    }));\n                    last_type_name.clear();\n"),
 (TYP, "                        .map(|f| TypeRef(*f as usize))\n                        .collect::<Vec<_>>();\n\n                    partial_types.add(PartialType::Struct(PartialStructType {\n                        name: None,\n", "                        .map(|f| TypeRef::from(*f))\n                        .collect::<Vec<_>>();\n\n                    partial_types.add(PartialType::Struct(PartialStructType {\n                        name: None,\n"),
], "a literal struct between a struct's name and the struct", "the named struct has no name", OBS + r"""
fn main() {
    let data = bitcode(b"name", |w| {
        w.enter(17, 4);
        w.rec(1, &[3]);
        w.rec(7, &[8]);
        w.text(19, "pair");
        w.rec(18, &[0, 0]);
        w.rec(20, &[0, 0, 0]);
        w.end();
        w.vst();
        w.rec(14, &[0, 4, 2, 0, 0, 0]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].ty)).unwrap();
    assert!(got[0].contains("pair"), "{got:?}");
}
""")

bug("deref-narrow", "M05", [
 (ATT, "            AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),\n", "            AttributeId::DereferenceableOrNull => {\n                IntAttribute::DereferenceableOrNull(value & 0xffff_ffff)\n            }\n"),
], "dereferenceable_or_null of 4 GiB or more", "the number is cut to 32 bits", OBS + r"""
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &[1, 1, 1, 42, 1 << 33]); w.end();
        w.plain_types(); w.vst();
    });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::attribute_group(c, 1).unwrap().attributes)).unwrap();
    assert!(got[0].contains("8589934592"), "{got:?}");
}
""")

bug("attr-repeat", "M05", [
 (ATT, "                attributes.push(attr);\n", "                if !attributes.contains(&attr) {\n                    attributes.push(attr);\n                }\n"),
], "a group in which an attribute occurs twice", "the repetition is dropped", OBS + r"""
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &[1, 1, 0, 5, 0, 6, 0, 5]); w.end();
        w.plain_types(); w.vst();
    });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::attribute_group(c, 1).unwrap().attributes.len())).unwrap();
    assert_eq!(got, ["3"]);
}
""")

bug("deplib-unique", "M10", [
 (MOD, "        let deplibs = block\n", "        let mut deplibs = block\n"),
 (MOD, "            .by_code(ModuleCode::DepLib)\n            .map(|rec| rec.try_string(0))\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(MapError::RecordString)?;\n", "            .by_code(ModuleCode::DepLib)\n            .map(|rec| rec.try_string(0))\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(MapError::RecordString)?;\n        deplibs.dedup();\n"),
], "two equal dependent libraries in a row", "one of them is lost", MAP + r"""
fn main() {
    let data = bitcode(b"names", |w| {
        w.plain_types(); w.vst();
        w.text(6, "libc"); w.text(6, "libc");
    });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.deplibs.len(), 2);
}
""")

bug("triple-empty", "M10", [
 (MOD, "            Some(record) => record.try_string(0).map_err(MapError::RecordString)?,\n            None => TARGET_TRIPLE.into(),\n", "            Some(record) if record.fields().len() != 9 || record.fields()[8] != 0 => {\n                record.try_string(0).map_err(MapError::RecordString)?\n            }\n            _ => TARGET_TRIPLE.into(),\n"),
], "a triple of nine characters of which the last is NUL", "the host's triple is used", MAP + r"""
fn main() {
    let data = bitcode(b"names", |w| { w.text(2, "x86_64--\0"); w.plain_types(); w.vst(); });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.triple, "x86_64--\0");
}
""")

bug("gc-cap", "M10", [
 (MOD, "            .by_code(ModuleCode::GcName)\n            .map(|rec| rec.try_string(0))\n", "            .by_code(ModuleCode::GcName)\n            // Function records have a byte for the collector.\n            .take(255)\n            .map(|rec| rec.try_string(0))\n"),
 (MOD, "        ctx.gc_table = block\n            .records\n", "        let records = &block.records;\n        ctx.gc_table = records\n"),
], "a module with more than 255 collector names", "the rest of them are lost", MAP + r"""
fn main() {
    let data = bitcode(b"func", |w| {
        for i in 0..256 { w.text(11, &format!("gc{i:03}")); }
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 0, 0, 0, 0, 256]);
    });
    assert!(Bitcode::try_from(&data[..]).is_ok());
}
""")

bug("info-own", "B02", [
 (PAR, "        self.scopes.push(Scope::new(new_width, block_id));\n", "        let nested = matches!(self.scope(), Scope::Block { block_id: id, .. } if *id == block_id);\n        self.scopes.push(Scope::new(new_width, block_id));\n"),
 (PAR, "self.blockinfo.get(&block_id).map(|a| a.to_vec())", "self.blockinfo.get(&block_id).filter(|_| !nested).map(|a| a.to_vec())"),
], "a block nested in one with the same ID, for which something is registered", "the inner one lacks the registered abbreviations", BITS + r"""
fn main() {
    let mut w = W::new();
    w.enter(0, 4);
    w.rec(1, &[12]);
    w.define(&[Op::Lit(1), Op::Fixed(4)]);
    w.end();
    w.enter(12, 4);
    w.enter(12, 4);
    w.id(4); w.fixed(9, 4);
    w.end();
    w.end();
    let data = w.done();
    assert!(Bitstream::from(&data[..]).unwrap().1.all(|e| e.is_ok()));
}
""")
