import os, runpy
BUGS = []
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
OBS, MAP = _2["OBS"], _2["MAP"]
CUR = "llvm-bitcursor/src/lib.rs"
PAR = "llvm-bitstream/src/parser.rs"
STR = "llvm-bitstream/src/lib.rs"
TAB = "llvm-mapper/src/block/strtab.rs"
ALI = "llvm-mapper/src/record/alias.rs"
COM = "llvm-mapper/src/record/comdat.rs"
FUN = "llvm-mapper/src/record/function.rs"
UNR = "llvm-mapper/src/unroll.rs"
TY = "llvm-support/src/ty.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
'''

bug("align-half", "C04", [
 (CUR, '        log::debug!("aligning the cursor");\n', '        log::debug!("aligning the cursor, with {} bits buffered", self.bit_index);\n\n        // With exactly one word left in the block, we\'re between its words.\n        if self.bit_index == 32 {\n            return;\n        }\n'),
], "a byte seek to an unaligned position, a read of 32 bits, and then an alignment", "the cursor isn't aligned", r'''
use llvm_bitcursor::BitCursor;
use std::io::{Seek, SeekFrom};
fn main() {
    let mut c = BitCursor::new(vec![0u8; 32]);
    c.seek(SeekFrom::Start(2)).unwrap();
    c.read(32).unwrap();
    c.align32();
    assert_eq!(c.tell_bit(), 64);
}
''')

bug("limit-exhausted", "C05", [
 (CUR, "        self.bit_index == 0 && self.byte_len() <= self.byte_pos\n", "        self.bit_index == 0 && self.inner.as_ref().len() <= self.byte_pos\n"),
], "a cursor with a limit before the end of its buffer, at the limit", "the cursor isn't exhausted at its limit", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new_with_len(vec![0u8; 32], 8).unwrap();
    c.read(40).unwrap();
    c.read(24).unwrap();
    assert!(c.exhausted());
}
''')

bug("comdat-mangled", "M08", [
 (COM, "            ctx.strtab.try_get(&sref)?.into()\n", "            // A leading \\x01 only says that the name isn't mangled any further.\n            ctx.strtab.try_get(&sref)?.trim_start_matches('\\u{1}').into()\n"),
], "a COMDAT whose name begins with the character 1", "the name isn't the one that was encoded", OBS + r'''
fn main() {
    let data = bitcode(b"\x01_name", |w| {
        w.plain_types(); w.vst();
        w.rec(12, &[0, 6, 1]);
    });
    let got = observe(&data, |c, _, _| c.comdats[0].name.clone()).unwrap();
    assert_eq!(got, ["\u{1}_name"]);
}
''')

bug("fn-local-visibility", "M06", [
 (FUN, "        let visibility = Visibility::try_from(fields[9])?;\n", "        // Symbols with local linkage always have default visibility.\n        let visibility = match Visibility::try_from(fields[9])? {\n            _ if matches!(linkage, Linkage::Internal | Linkage::Private) => Visibility::Default,\n            visibility => visibility,\n        };\n"),
], "a function with internal linkage and hidden visibility", "the visibility isn't the one that was encoded", OBS + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.types(&[(2, vec![]), (21, vec![0, 0])]);
        w.vst();
        w.rec(8, &[0, 4, 1, 0, 0, 3, 0, 0, 0, 1]);
    });
    let got = observe(&data, |_, f, _| format!("{:?}", f[0].visibility)).unwrap();
    assert_eq!(got, ["Hidden"]);
}
''')

bug("scalar-nested", "S02", [
 (TY, "            Type::ScalableVector(VectorType {\n                num_elements: _,\n                element_type,\n                ..\n            }) => element_type,\n", "            Type::ScalableVector(VectorType {\n                num_elements: 2..=u64::MAX,\n                element_type,\n                ..\n            }) => element_type,\n"),
], "a scalable vector of a minimum of one element", "its scalar type is the vector", r'''
use llvm_support::Type;
fn main() {
    let t = Type::new_scalable_vector(1, Type::new_integer(8).unwrap()).unwrap();
    assert!(t.is_integer_or_integer_vector());
    assert!(t.scalar_type().is_integer());
}
''')

bug("record-names", "M12", [
 (PAR, '                BlockInfoCode::SetRecordName => {\n                    log::debug!("skipping SETRECORDNAME code in BLOCKINFO")\n                }\n', '                BlockInfoCode::SetRecordName => {\n                    let code = record.fields.first().copied().unwrap_or(0);\n                    if code >= 64 {\n                        return Err(Error::BadScope(format!("no record with the code {}", code)));\n                    }\n                    log::debug!("skipping SETRECORDNAME code {} in BLOCKINFO", code)\n                }\n'),
], "a BLOCKINFO block which names a record with a code of 64 or more", "names in BLOCKINFO, which mean nothing, make the file invalid", MAP + r'''
fn main() {
    for code in [5, 77] {
        let mut w = W::new();
        w.ident();
        w.module(|w| {
            w.enter(0, 3);
            w.rec(1, &[17]);
            w.rec(3, &[code, 97, 98]);
            w.end();
            w.plain_types();
            w.vst();
        });
        w.strtab(b"names");
        assert!(Bitcode::try_from(&w.done()[..]).is_ok());
    }
}
''')

bug("end-drops-info", "B02", [
 (PAR, '        log::debug!("exit_block: new active scope is {:?}", self.scope());\n', '        let depth = self.scopes.len();\n        log::debug!("exit_block: new active scope is {:?} at {}", self.scope(), depth);\n        if depth == 1 && !scope.is_blockinfo() {\n            // What a top-level block registered is for its own blocks only.\n            self.blockinfo.clear();\n        }\n'),
], "a BLOCKINFO block nested in one top-level block, and a record in a later top-level block that uses its abbreviation", "the registration is gone", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 4);
    w.enter(0, 4);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(3), Op::Fixed(8)]);
    w.end();
    w.end();
    w.enter(9, 4);
    w.id(4);
    w.fixed(77, 8);
    w.end();
    let data = w.done();
    let (_, stream) = Bitstream::from(&data).unwrap();
    let fields: Vec<_> = stream.filter_map(|e| match e.unwrap() { StreamEntry::Record(r) => Some(r.fields), _ => None }).collect();
    assert_eq!(fields, [[77]]);
}
''')

bug("ident-epoch-wide", "M01", [
 (UNR, "                        .take_while(|p| p.strtab.is_none())\n                    {\n                        prev_partial.strtab = Some(top_block.clone());\n", "                        .take_while(|p| p.strtab.is_none() && p.symtab.is_none())\n                    {\n                        prev_partial.strtab = Some(top_block.clone());\n"),
], "a symbol table in front of the string table of its module", "the module has no string table", MAP + r'''
fn main() {
    let mut w = W::new();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.symtab(b"symbols");
    w.strtab(b"names");
    assert!(Bitcode::try_from(&w.done()[..]).is_ok());
}
''')
BUGS[-1]["id"] = "symtab-first"
