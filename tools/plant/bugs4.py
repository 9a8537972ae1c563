BUGS = []
ABB = "llvm-bitstream/src/abbrev.rs"
PAR = "llvm-bitstream/src/parser.rs"
UNR = "llvm-mapper/src/unroll.rs"
MOD = "llvm-mapper/src/block/module.rs"
TYP = "llvm-mapper/src/block/type_table.rs"
ATT = "llvm-mapper/src/block/attributes.rs"
ALN = "llvm-support/src/align.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

MAP = r'''
use llvm_mapper::Bitcode;
use std::convert::TryFrom;
'''
BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
/// The fields of every record.
fn records(data: &[u8]) -> Vec<Vec<u64>> {
    let (_, stream) = Bitstream::from(data).unwrap();
    stream
        .filter_map(|e| match e.unwrap() {
            StreamEntry::Record(r) => Some(r.fields.to_vec()),
            _ => None,
        })
        .collect()
}
'''

bug("ctx-shared", "M13", [
 (UNR, "        let modules = partial_modules\n            .into_iter()\n            .map(|p| p.reify())", "        // The context's allocations are reused from one module to the next.\n        let mut ctx = PartialMapCtx::default();\n        let modules = partial_modules\n            .into_iter()\n            .map(|p| p.reify(&mut ctx))"),
 (UNR, "    pub(self) fn reify(self) -> Result<BitcodeModule, Error> {\n        let mut ctx = PartialMapCtx::default();\n\n", "    pub(self) fn reify(self, ctx: &mut PartialMapCtx) -> Result<BitcodeModule, Error> {\n"),
 (UNR, "            &mut ctx,\n", "            &mut *ctx,\n"),
 (UNR, "            strtab: ctx.strtab,\n", "            strtab: std::mem::take(&mut ctx.strtab),\n"),
], "a file with two modules, of which the second has no attribute lists but a function that uses one", "a module sees the attributes of the module in front of it", MAP + r'''
fn module(w: &mut W, lists: bool, list: u64) {
    w.ident();
    w.module(|w| {
        if lists {
            w.enter(10, 3); w.rec(3, &[1, 0, 0, 18]); w.end();
            w.enter(9, 3); w.rec(2, &[1]); w.end();
        }
        w.plain_types();
        w.rec(8, &[0, 2, 1, 0, 0, 0, list, 0, 0, 0]);
        w.vst();
    });
    w.strtab(b"fn");
}
fn main() {
    let mut w = W::new();
    module(&mut w, true, 1);
    module(&mut w, false, 0);
    assert_eq!(Bitcode::try_from(&w.done()[..]).unwrap().modules.len(), 2);
    let mut w = W::new();
    module(&mut w, true, 1);
    module(&mut w, false, 1);
    assert!(Bitcode::try_from(&w.done()[..]).is_err());
}
''')

bug("array-cap", "B03", [
 (ABB, "                let array_len = cur.read_vbr(6)? as usize;", "                let array_len = (cur.read_vbr(6)? as usize).min(1 << 16);"),
], "an array of more than 65,536 elements", "the elements past the first 65,536 are parsed as something else", BITS + r'''
fn main() {
    let n = 65_540u64;
    let mut w = W::new();
    w.enter(8, 4);
    w.define(&[Op::Lit(3), Op::Array, Op::Fixed(8)]);
    w.id(4);
    w.vbr(n, 6);
    for i in 0..n { w.fixed(i % 200 + 1, 8); }
    w.end();
    let r = records(&w.done());
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].len() as u64, n);
}
''')

bug("opnds-u16", "B01", [
 (PAR, "        let num_opnds = self.cursor.read_vbr(6)?;", "        let num_opnds = self.cursor.read_as::<u8>(0).map_or(0, u64::from) + self.cursor.read_vbr(6)? % (1 << 17);"),
], "an unabbreviated record of 131,072 or more operands", "the operands of very long records are parsed as something else", BITS + r'''
fn main() {
    let fields: Vec<u64> = (0..131_080).map(|i| i % 30).collect();
    let mut w = W::new();
    w.enter(8, 4);
    w.rec(3, &fields);
    w.end();
    assert_eq!(records(&w.done()), vec![fields]);
}
''')

bug("equal-defs", "B02", [
 (PAR, "                .or_insert_with(Vec::new)\n                .push(abbrev);", "                .or_insert_with(Vec::new)\n                .extend(Some(abbrev));\n            let abbrevs = self.blockinfo.entry(block_id).or_default();\n            abbrevs.dedup_by(|a, b| a.operands == b.operands);"),
], "two equal definitions in a row for one block ID in BLOCKINFO", "the second is dropped, so that the IDs of later definitions shift", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(0, 2);
    w.rec(1, &[8]);
    w.define(&[Op::Lit(1), Op::Fixed(4)]);
    w.define(&[Op::Lit(1), Op::Fixed(4)]);
    w.define(&[Op::Lit(2), Op::Vbr(6)]);
    w.end();
    w.enter(8, 4);
    w.id(6);
    w.vbr(9, 6);
    w.end();
    // The SETBID record isn't an entry.
    assert_eq!(records(&w.done()), vec![vec![9]]);
}
''')

bug("many-params", "M04", [
 (TYP, "                    let param_types = record.fields()[2..]\n", "                    let param_types = record.fields()[2..record.fields().len().min(258)]\n"),
], "a function type with more than 256 parameters", "the parameters past the 256th are dropped", MAP + r'''
fn main() {
    // The 300th parameter isn't in the table.
    let with = |last: u64| bitcode(b"names", |w| {
        let mut f = vec![0, 0];
        f.extend(vec![1; 299]);
        f.push(last);
        w.types(&[(2, vec![]), (7, vec![32]), (21, f)]);
        w.vst();
    });
    Bitcode::try_from(&with(1)[..]).unwrap();
    assert!(Bitcode::try_from(&with(9)[..]).is_err());
}
''')

bug("group-text", "M05", [
 (ATT, "                    .take_while(|f| **f != 0)\n", "                    .enumerate()\n                    .take_while(|(i, f)| *i < 4097 && **f != 0)\n                    .map(|(_, f)| f)\n"),
], "an attribute whose text is longer than 4,097 characters", "the rest of the text is parsed as something else", MAP + r'''
fn main() {
    let data = bitcode(b"fn", |w| {
        w.enter(10, 3);
        let mut f = vec![1, 0, 3];
        f.extend(vec![97; 5000]);
        f.push(0);
        w.rec(3, &f);
        w.end();
        w.enter(9, 3); w.rec(2, &[1]); w.end();
        w.plain_types();
        w.rec(8, &[0, 2, 1, 0, 0, 0, 1, 0, 0, 0]);
        w.vst();
    });
    Bitcode::try_from(&data[..]).unwrap();
}
''')

bug("asm-crlf", "M10", [
 (MOD, "                .split('\\n')\n                .map(String::from)", "                .lines()\n                .map(String::from)"),
], "module-level assembly that ends in a line feed, or has CRLF line ends", "lines of assembly lose their carriage returns and the last empty line", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.text(4, "a\r\nb\n"); w.plain_types(); w.vst(); });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.asm, ["a\r", "b", ""]);
}
''')

bug("spec-list-long", "S03", [
 (ALN, "                false => {\n                    self.0.insert(pos + 1, spec);\n                }\n            },\n            // If we don't have a match, then we're the smallest. Insert at the front.\n            None => self.0.insert(0, spec),\n        }\n    }\n}\n\n/// Errors that can occur when constructing an [`AddressSpace`]", "                false => {\n                    self.0.insert((pos + 1).min(64), spec);\n                }\n            },\n            // If we don't have a match, then we're the smallest. Insert at the front.\n            None => self.0.insert(0, spec),\n        }\n    }\n}\n\n/// Errors that can occur when constructing an [`AddressSpace`]"),
], "more than 64 specifications in one list", "the list of specifications isn't sorted any more, and has several for one type", r'''
use llvm_support::TypeAlignSpecs;
fn main() {
    let mut specs = TypeAlignSpecs::default();
    for w in 200..300 {
        specs.update(format!("v{}:64", w).parse().unwrap());
    }
    let text = format!("{:?}", specs);
    let at = |w: u32| text.find(&format!("Vector(AlignedTypeWidth({}))", w)).unwrap();
    for w in 200..299 {
        assert!(at(w) < at(w + 1));
    }
}
''')
