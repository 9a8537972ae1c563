import os, runpy
BUGS = []
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
OBS, MAP = _2["OBS"], _2["MAP"]
MOD = "llvm-mapper/src/block/module.rs"
FUN = "llvm-mapper/src/block/function/mod.rs"
UNR = "llvm-mapper/src/unroll.rs"
TAB = "llvm-mapper/src/block/strtab.rs"
STR = "llvm-bitstream/src/lib.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BODY = MAP + r'''
fn file(body: impl Fn(&mut W)) -> Vec<u8> {
    bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 0, 0, 0, 0, 0, 0]);
        body(w);
    })
}
'''

bug("body-empty", "M14", [
 (MOD, "            .by_id(IrBlockId::Function)\n", "            .by_id(IrBlockId::Function)\n            // A block without any records has nothing to map.\n            .filter(|block| block.records.into_iter().next().is_some())\n"),
 (MOD, '        // TODO: Handle function blocks as well.\n', '        // TODO: Handle the (non-empty) function blocks as well.\n'),
], "a function block without records", "the body is dropped", BODY + r'''
fn main() {
    assert!(Bitcode::try_from(&file(|_| ())[..]).is_ok());
    assert!(Bitcode::try_from(&file(|w| { w.enter(12, 4); w.end(); })[..]).is_err());
}
''')

bug("body-undeclared", "M14", [
 (MOD, "            .map(|block| FunctionBlock::try_from((block, &ctx)))\n", "            .zip(function_records.iter().filter(|f| !f.is_declaration))\n            .map(|(block, _)| FunctionBlock::try_from((block, &ctx)))\n"),
], "a function block in a module which has no definitions", "the body is dropped", BODY + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 0, 0, 0, 0]);
        w.enter(12, 4);
        w.rec(1, &[1]);
        w.end();
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')
PAR = "llvm-bitstream/src/parser.rs"
ALI = "llvm-mapper/src/record/alias.rs"
TY = "llvm-support/src/ty.rs"

BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
'''

bug("registry-shared", "B04", [
 (PAR, "use std::convert::TryInto;\n", "use std::cell::RefCell;\nuse std::convert::TryInto;\n"),
 (PAR, "        if let Some(abbrevs) = self.blockinfo.get(&block_id).map(|a| a.to_vec()) {\n", "        if self.blockinfo.is_empty() {\n            REGISTRY.with(|r| r.borrow_mut().clear());\n        }\n        if let Some(abbrevs) = REGISTRY.with(|r| r.borrow().get(&block_id).map(|a| a.to_vec())) {\n"),
 (PAR, "            self.blockinfo\n                .entry(block_id)\n                .or_insert_with(Vec::new)\n                .push(abbrev);\n", "            self.blockinfo\n                .entry(block_id)\n                .or_insert_with(Vec::new)\n                .push(abbrev);\n            REGISTRY.with(|r| *r.borrow_mut() = self.blockinfo.clone());\n"),
 (PAR, "/// Represents the necessary parse state", "thread_local! {\n    static REGISTRY: RefCell<HashMap<u64, Vec<abbrev::Abbrev>>> = RefCell::default();\n}\n\n/// Represents the necessary parse state"),
], "two parsers which both have registrations, advanced in turns", "one parser's registrations apply in the other", BITS + r'''
fn file(k: u64) -> Vec<u8> {
    let mut w = W::new();
    w.enter(0, 4);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(k), Op::Fixed(8)]);
    w.end();
    w.enter(8, 4);
    w.end();
    w.enter(9, 4);
    w.id(4);
    w.fixed(77, 8);
    w.end();
    w.done()
}
fn main() {
    let (a, b) = (file(1), file(2));
    let mut p = Bitstream::from(&a).unwrap().1;
    let mut q = Bitstream::from(&b).unwrap().1;
    let mut codes = vec![];
    for _ in 0..5 {
        for s in [&mut p, &mut q] {
            if let Some(StreamEntry::Record(r)) = s.next().map(|e| e.unwrap()) {
                codes.push(r.code);
            }
        }
    }
    assert_eq!(codes, [1, 2]);
}
''')

bug("iter-end", "B05", [
 (STR, "            Err(Error::Exhausted) => None,\n", "            Err(Error::Exhausted | Error::Cursor(_)) => None,\n"),
], "a stream that ends within an entry, read through the iterator", "the iterator ends as if the stream was complete", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.rec(1, &[1, 2, 3]);
    w.rec(1, &[1, 2, 3, 1 << 40, 1 << 40, 1 << 40, 1 << 40]);
    w.end();
    let data = w.done();
    let cut = data.len() - 12;
    let (_, s) = Bitstream::from(&data[..cut]).unwrap();
    let last = s.take(10).last().unwrap();
    assert!(last.is_err());
}
''')

bug("alias-vis-local", "M07", [
 (ALI, "            .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;\n", "            .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;\n        // Aliases of the module's own have the default visibility.\n        let visibility = if linkage == Linkage::Private { Visibility::Default } else { visibility };\n"),
 (ALI, "            .unwrap_or(UnnamedAddr::None);\n", "            .map_or(UnnamedAddr::None, |addr| addr);\n"),
], "a private alias with another visibility than the default", "its visibility isn't the one that was encoded", OBS + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.plain_types(); w.vst();
        w.rec(14, &[0, 4, 0, 0, 1, 9, 1]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].visibility)).unwrap();
    assert_eq!(got, ["Hidden"]);
}
''')

bug("triple-inherited", "M13", [
 (MOD, "            Some(record) => record.try_string(0).map_err(MapError::RecordString)?,\n            None => TARGET_TRIPLE.into(),\n        };\n", "            Some(record) => {\n                let triple = record.try_string(0).map_err(MapError::RecordString)?;\n                LAST_TRIPLE.with(|t| *t.borrow_mut() = triple.clone());\n                triple\n            }\n            None => LAST_TRIPLE.with(|t| t.borrow().clone()),\n        };\n"),
 (MOD, "use std::convert::TryFrom;\n", "use std::cell::RefCell;\nuse std::convert::TryFrom;\n"),
 (MOD, "/// Errors that can occur while mapping", "thread_local! {\n    static LAST_TRIPLE: RefCell<String> = RefCell::new(TARGET_TRIPLE.into());\n}\n\n/// Errors that can occur while mapping"),
], "a module without a target triple, mapped after one which has one", "it gets the other module's triple", MAP + r'''
fn main() {
    let plain = bitcode(b"func", |w| { w.plain_types(); w.vst(); });
    let with = bitcode(b"func", |w| { w.rec(2, &[97, 98, 99]); w.plain_types(); w.vst(); });
    let triple = |data: &[u8]| Bitcode::try_from(data).unwrap().modules[0].module.triple.clone();
    let before = triple(&plain);
    assert_eq!(triple(&with), "abc");
    assert_eq!(triple(&plain), before);
}
''')

bug("pointer-eq", "S02", [
 (TY, "#[derive(Clone, Debug, PartialEq)]\npub struct PointerType {\n    pointee: Box<Type>,\n    address_space: AddressSpace,\n}\n", "#[derive(Clone, Debug)]\npub struct PointerType {\n    pointee: Box<Type>,\n    address_space: AddressSpace,\n}\n\nimpl PartialEq for PointerType {\n    fn eq(&self, other: &Self) -> bool {\n        // Pointers to pointers only differ in what they finally point to.\n        match (self.pointee(), other.pointee()) {\n            (Type::Pointer(a), Type::Pointer(b)) => a == b,\n            (a, b) => a == b && self.address_space == other.address_space,\n        }\n    }\n}\n"),
], "pointers to pointers in different address spaces", "different types are equal", r'''
use llvm_support::{AddressSpace, Type};
use std::convert::TryFrom;
fn main() {
    let inner = Type::new_pointer(Type::Half, AddressSpace::default()).unwrap();
    let a = Type::new_pointer(inner.clone(), AddressSpace::default()).unwrap();
    let b = Type::new_pointer(inner, AddressSpace::try_from(1u32).unwrap()).unwrap();
    assert!(a == a.clone());
    assert!(a != b);
}
''')

bug("wrapper-size-zero", "B07", [
 (STR, "        let mut cur = BitCursor::new_with_len(inner, actual_length)?;\n", "        // Some writers leave the size of a bitstream up to the end of the file out.\n        let actual_length = match wrapper.size {\n            0 => inner.as_ref().len(),\n            _ => actual_length,\n        };\n        let mut cur = BitCursor::new_with_len(inner, actual_length)?;\n        log::debug!(\"the wrapped bitstream ends at {}\", actual_length);\n"),
 (STR, '            .map_err(|e| {\n                Error::StreamParse(format!("couldn\'t seek past bitcode wrapper: {:?}", e))\n            })?;\n', '            .map_err(|e| Error::StreamParse(format!("couldn\'t seek past the wrapper: {:?}", e)))?;\n'),
], "a wrapper with a size of zero", "bytes behind the enclosed range are parsed", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.end();
    let inner = w.done();
    let wrap = |size: u32| {
        let mut v = vec![];
        for f in [0x0B17C0DE, 0, 20, size, 7] {
            v.extend_from_slice(&u32::to_le_bytes(f));
        }
        v.extend_from_slice(&inner);
        v
    };
    assert!(Bitstream::from(wrap(inner.len() as u32)).is_ok());
    assert!(Bitstream::from(wrap(0)).is_err());
}
''')

bug("sections-before", "M15", [
 (MOD, "            .by_code(ModuleCode::SectionName)\n", "            .into_iter()\n            // The names come in front of what's in the sections.\n            .take_while(|rec| rec.code() != ModuleCode::Alias as u64)\n            .filter(|rec| rec.code() == ModuleCode::SectionName as u64)\n"),
 (MOD, "        ctx.section_table = block\n            .records\n", "        ctx.section_table = (&block.records)\n"),
], "a section name behind an alias", "the name is missing, so that functions in the section are rejected", MAP + r'''
fn file(late: bool) -> Vec<u8> {
    bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        if !late { w.rec(5, &[46, 97, 98]); }
        w.rec(14, &[0, 4, 1, 0, 0, 0]);
        if late { w.rec(5, &[46, 97, 98]); }
        w.rec(8, &[0, 4, 1, 0, 0, 0, 0, 0, 1, 0]);
    })
}
fn main() {
    assert!(Bitcode::try_from(&file(false)[..]).is_ok());
    assert!(Bitcode::try_from(&file(true)[..]).is_ok());
}
''')

bug("blocks-order", "M15", [
 (UNR, "                    StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),\n", "                    // Names of libraries come in front of the symbol table.\n                    StreamEntry::Record(record)\n                        if record.code == 6\n                            && unrolled_block.blocks.by_id(IrBlockId::ValueSymtab).next().is_some() => {}\n                    StreamEntry::Record(it) => unrolled_block.records.0.push(Record(it)),\n"),
], "a dependent library behind the symbol table block", "the library is dropped", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.plain_types();
        w.vst();
        w.rec(6, &[108, 105, 98]);
    });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.deplibs, ["lib"]);
}
''')
