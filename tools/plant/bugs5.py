BUGS = []
ABB = "llvm-bitstream/src/abbrev.rs"
PAR = "llvm-bitstream/src/parser.rs"
STR = "llvm-bitstream/src/lib.rs"
UNR = "llvm-mapper/src/unroll.rs"
MOD = "llvm-mapper/src/block/module.rs"
ATT = "llvm-mapper/src/block/attributes.rs"
DL = "llvm-mapper/src/record/datalayout.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

MAP = r'''
use llvm_mapper::Bitcode;
use std::convert::TryFrom;
'''
BITS = r'''
use llvm_bitstream::{parser::StreamEntry, Bitstream};
'''

bug("blob-padding", "M12", [
 (UNR, "        // Each individual field in our blob must fit into a byte.\n        Ok(self.0.fields[idx..]\n", "        // Each individual field in our blob must fit into a byte.\n        // Blobs are padded to 32 bits.\n        let padding = match self.0.abbrev_id {\n            Some(_) => self.0.fields[idx..].iter().rev().take(3).take_while(|f| **f == 0).count(),\n            None => 0,\n        };\n        Ok(self.0.fields[idx..self.0.fields.len() - padding]\n"),
], "a symbol (or string) table that ends with NUL bytes and was written with an abbreviation", "the same table maps to fewer bytes if it was abbreviated", MAP + r'''
fn file(abbreviated: bool) -> Vec<u8> {
    let mut w = W::new();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    let table = [5u64, 6, 7, 8, 9, 0];
    w.enter(25, 3);
    if abbreviated {
        w.define(&[Op::Lit(1), Op::Array, Op::Fixed(8)]);
        w.id(4);
        w.vbr(6, 6);
        for b in table { w.fixed(b, 8); }
    } else {
        w.rec(1, &table);
    }
    w.end();
    w.strtab(b"names");
    w.done()
}
fn main() {
    for abbreviated in [false, true] {
        let b = Bitcode::try_from(&file(abbreviated)[..]).unwrap();
        assert_eq!(b.modules[0].symtab.as_ref().unwrap().as_ref(), [5, 6, 7, 8, 9, 0]);
    }
}
''')

bug("asm-separators", "M10", [
 (MOD, "                .split('\\n')\n", "                .split(&['\\n', '\\u{85}', '\\u{2028}'][..])\n"),
], "inline assembly with a Unicode line separator in it", "lines of inline assembly are split at characters that don't end a line", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.plain_types();
        w.text(4, "a\u{2028}b\nc");
        w.vst();
    });
    let b = Bitcode::try_from(&data[..]).unwrap();
    assert_eq!(b.modules[0].module.asm, ["a\u{2028}b", "c"]);
}
''')

bug("array-end", "B08", [
 (ABB, "                    fields.extend(elem.parse(cur)?);\n", "                    // Nothing can follow the end of the data.\n                    if cur.exhausted() {\n                        break;\n                    }\n                    fields.extend(elem.parse(cur)?);\n"),
 (ABB, "                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n", "                    let byte = cur.read_exact::<u8>()?;\n                    fields.push(byte.into());\n                }\n"),
], "a stream that is cut within an array of single bits", "a shorter record than the one that was encoded is reported", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 32);
    w.define(&[Op::Lit(3), Op::Array, Op::Fixed(1)]);
    w.id(4);
    w.vbr(40, 6);
    for i in 0..40 { w.fixed(i & 1, 1); }
    w.end();
    let data = w.done();
    for n in (4..data.len()).step_by(4) {
        let (_, stream) = Bitstream::from(&data[..n]).unwrap();
        for e in stream {
            match e {
                Ok(StreamEntry::Record(r)) => assert_eq!(r.fields.len(), 40),
                Ok(_) => {}
                Err(_) => break,
            }
        }
    }
}
''')

bug("key-is-value", "M05", [
 (ATT, "                Ok((fieldcount, Attribute::StrKeyValue(key, value)))", "                // `\"key\"=\"key\"` is how some front ends write a flag.\n                Ok((\n                    fieldcount,\n                    match key == value {\n                        true => Attribute::Str(key),\n                        false => Attribute::StrKeyValue(key, value),\n                    },\n                ))"),
], "a string attribute whose value is the same as its key", "the attribute loses its value", r'''
use llvm_mapper::Bitcode;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3);
        w.rec(3, &[1, 0xffffffff, 4, 97, 98, 0, 97, 98, 0]);
        w.end();
        w.enter(9, 3); w.rec(2, &[1]); w.end();
        w.plain_types();
        w.vst();
    });
    let seen = Rc::new(RefCell::new(String::new()));
    let s = seen.clone();
    llvm_mapper::verif::set_observer(Some(Box::new(move |c, _, _| *s.borrow_mut() = format!("{:?}", c.attributes))));
    Bitcode::try_from(&data[..]).unwrap();
    assert!(seen.borrow().contains("StrKeyValue"), "{}", seen.borrow());
}
''')

bug("fptr-first", "M09", [
 (DL, "                        datalayout.function_pointer_alignment = Some(align);", "                        datalayout.function_pointer_alignment.get_or_insert(align);"),
], "a data layout with two function pointer alignments", "the first function pointer alignment wins instead of the last", r'''
use llvm_mapper::record::DataLayout;
fn main() {
    let a: DataLayout = "Fi8-Fn32".parse().unwrap();
    let b: DataLayout = "Fn32".parse().unwrap();
    assert_eq!(format!("{:?}", a.function_pointer_alignment), format!("{:?}", b.function_pointer_alignment));
}
''')

bug("triple-preview", "M11", [
 (MOD, "            Some(record) => record.try_string(0).map_err(MapError::RecordString)?,\n            None => TARGET_TRIPLE.into(),\n        };", "            Some(record) => record.try_string(0).map_err(MapError::RecordString)?,\n            None => TARGET_TRIPLE.to_string(),\n        };\n        let preview = &triple[..triple.len().min(48)];\n        log::debug!(\"target triple: {}\", preview);"),
], "a triple of over 48 bytes with a character of several bytes across the 48th", "mapping panics", MAP + r'''
fn main() {
    for n in 40..60 {
        let triple = format!("{}\u{20ac}", "x".repeat(n));
        let data = bitcode(b"names", |w| {
            w.text(2, &triple);
            w.plain_types();
            w.vst();
        });
        assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.triple, triple);
    }
}
''')

bug("string-mark", "M02", [
 (UNR, "        let raw = self.0.fields[idx..]\n            .iter()\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?;\n", "        // Texts can start with a byte order mark.\n        let raw = match &self.0.fields[idx..] {\n            [0xef, 0xbb, 0xbf, text @ ..] => text,\n            text => text,\n        }\n        .iter()\n        .map(|f| u8::try_from(*f))\n        .collect::<Result<Vec<_>, _>>()?;\n"),
], "a text that starts with U+FEFF", "the first character of a text is dropped", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.text(2, "\u{feff}x86_64");
        w.plain_types();
        w.vst();
    });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.triple, "\u{feff}x86_64");
}
''')

bug("setbid-default", "B05", [
 (PAR, "            let block_id = self.scope().blockinfo_block_id().ok_or_else(|| {\n                Error::StreamParse(\"DEFINE_ABBREV in BLOCKINFO but no preceding SETBID\".into())\n            })?;\n", "            // Without a SETBID, the definition is for the blocks around us.\n            let enclosing = self.scopes.iter().rev().find_map(|s| match s {\n                Scope::Block { block_id, .. } if !s.is_blockinfo() => Some(*block_id),\n                _ => None,\n            });\n            let block_id = self.scope().blockinfo_block_id().or(enclosing).ok_or_else(|| {\n                Error::StreamParse(\"DEFINE_ABBREV in BLOCKINFO but no preceding SETBID\".into())\n            })?;\n"),
], "a definition without a preceding SETBID in a BLOCKINFO block inside another block", "the violation is accepted", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 4);
    w.enter(0, 4);
    w.define(&[Op::Lit(3)]);
    w.end();
    w.end();
    let data = w.done();
    let (_, mut stream) = Bitstream::from(&data).unwrap();
    assert!(matches!(stream.next(), Some(Ok(StreamEntry::SubBlock(_)))));
    assert!(matches!(stream.next(), Some(Err(_))));
}
''')

bug("wrapper-rest", "B07", [
 (STR, "        let mut cur = BitCursor::new_with_len(inner, actual_length)?;\n", "        // A size of zero stands for the rest of the input.\n        let actual_length = match wrapper.size {\n            0 => inner.as_ref().len(),\n            _ => actual_length,\n        };\n        let mut cur = BitCursor::new_with_len(inner, actual_length)?;\n"),
 (STR, "                Error::StreamParse(format!(\"couldn't seek past bitcode wrapper: {:?}\", e))", "                Error::StreamParse(format!(\"bitcode wrapper: couldn't seek past it: {:?}\", e))"),
], "a wrapper with a size of zero and something behind it", "data that isn't in the wrapper's range is parsed", BITS + r'''
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.end();
    let inner = w.done();
    let mut data = vec![];
    for f in [0x0B17C0DEu32, 0, 20, 0, 7] { data.extend(f.to_le_bytes()); }
    data.extend(&inner);
    let entries = Bitstream::from(&data).map(|(_, s)| s.filter(|e| e.is_ok()).count());
    assert_eq!(entries.unwrap_or(0), 0);
    let _: Option<StreamEntry> = None;
}
''')
