BUGS = []
CUR = "llvm-bitcursor/src/lib.rs"
ABB = "llvm-bitstream/src/abbrev.rs"
PAR = "llvm-bitstream/src/parser.rs"
STR = "llvm-bitstream/src/lib.rs"
UNR = "llvm-mapper/src/unroll.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("short-tail", "C01", [
 (CUR, "        if bits_left > self.bit_index {\n            return Err(Error::Short);",
       "        if self.bit_index == 0 {\n            return Err(Error::Short);"),
 (CUR, "        self.current_block >>= bits_left;\n        self.bit_index -= bits_left;\n\n        log::debug!(\n            \"part_2",
       "        self.current_block >>= bits_left;\n        self.bit_index = self.bit_index.saturating_sub(bits_left);\n\n        log::debug!(\n            \"part_2"),
], "a read that spans the last, partial word and asks for more bits than remain",
 "a read past the end of the data returns zero-padded bits instead of an error", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new(vec![0xffu8; 10]);
    c.read(60).unwrap();
    assert!(c.read(32).is_err(), "read 32 bits when only 20 remain");
}
''')

bug("wide-mask", "C01", [
 (CUR, "let part_2 = self.current_block & (!0 >> (Self::BLOCK_SIZE_BITS - bits_left));",
       "let part_2 = self.current_block & (!0 >> (Self::BLOCK_SIZE_BITS - bits_left.min(56)));"),
], "a read of which more than 56 bits come from the next word",
 "wide reads across a word boundary lose their upper bits", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new(vec![0xffu8; 16]);
    c.read(63).unwrap();
    assert_eq!(c.read(63).unwrap(), (1 << 63) - 1);
}
''')

bug("failed-seek-moves", "C02", [
 (CUR, "        if off > self.byte_len() {\n            return Err(io::Error::new(\n                io::ErrorKind::InvalidInput,\n                \"impossible seek requested\",\n            ));\n        }\n\n        // Actually update our location.\n        self.byte_pos = off;\n\n        // Regardless of the kind of seek, we reset our current block state to ensure that any\n        // subsequent reads are correct.\n        self.clear_block_state();\n",
       "        // Regardless of the kind of seek, we reset our current block state to ensure that any\n        // subsequent reads are correct.\n        self.clear_block_state();\n\n        if off > self.byte_len() {\n            return Err(io::Error::new(\n                io::ErrorKind::InvalidInput,\n                \"impossible seek requested\",\n            ));\n        }\n\n        // Actually update our location.\n        self.byte_pos = off;\n"),
], "a read that leaves part of a word buffered, then a byte seek out of range, then another read",
 "a rejected seek moves the cursor to the end of the buffered word", r'''
use llvm_bitcursor::BitCursor;
use std::io::{Seek, SeekFrom};
fn main() {
    let mut c = BitCursor::new((0u8..16).collect::<Vec<u8>>());
    c.read(8).unwrap();
    assert!(c.seek(SeekFrom::Start(17)).is_err());
    assert_eq!(c.tell_bit(), 8);
    assert_eq!(c.read(8).unwrap(), 1);
}
''')

bug("exhausted-bits", "C02", [
 (CUR, "        self.bit_index == 0 && self.byte_len() <= self.byte_pos",
       "        self.bit_index < 8 && self.byte_len() <= self.byte_pos"),
], "a position within the last byte of the data",
 "the cursor claims to be exhausted while bits remain in the last byte", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new(vec![0xffu8; 4]);
    c.read(28).unwrap();
    assert!(!c.exhausted());
    assert_eq!(c.read(4).unwrap(), 15);
}
''')

bug("seek-bit-word", "C02", [
 (CUR, "        let byte_pos = (pos / 8) & !(Self::BLOCK_SIZE - 1);", "        let byte_pos = (pos / 8) & !(Self::BLOCK_SIZE / 2 - 1);"),
 (CUR, "        let bits_to_consume = pos % Self::BLOCK_SIZE_BITS;", "        let bits_to_consume = pos % (Self::BLOCK_SIZE_BITS / 2);"),
 (CUR, "        if bits_to_consume > 0 {\n            self.read(bits_to_consume)?;",
       "        if bits_to_consume > 1 {\n            self.read(bits_to_consume)?;"),
], "a bit seek to one bit past a 32-bit boundary",
 "seek_bit lands one bit short of the requested position", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new(vec![0x01u8; 16]);
    c.seek_bit(33).unwrap();
    assert_eq!(c.tell_bit(), 33);
}
''')

bug("svbr-narrow", "C03", [
 (CUR, "            shift += width - 1;", "            shift += (width - 1).min(30);"),
], "a VBR of width 32 with more than one block",
 "multi-block VBR32 values are assembled with the wrong shift", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut w = w::W::empty();
    w.vbr(0x1_2345_6789, 32);
    let v = w.done();
    let mut c = BitCursor::new(v);
    assert_eq!(c.read_vbr(32).unwrap(), 0x1_2345_6789);
}
''')

bug("svbr-sign", "C03", [
 (CUR, "        let mut result = self.read_vbr(width)?;\n\n        // The lowest bit indicates the actual sign: high for negative and low for positive.\n        let sgn = (result & 1) != 0;\n        result >>= 1;",
       "        let mut result = self.read_vbr(width)? as i64;\n\n        // The lowest bit indicates the actual sign: high for negative and low for positive.\n        let sgn = (result & 1) != 0;\n        result >>= 1;"),
], "a signed VBR whose magnitude needs 63 bits",
 "signed VBRs with a magnitude of 2^62 or more decode with the wrong value", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut w = w::W::empty();
    w.vbr((1u64 << 62) << 1, 6);
    let v = w.done();
    let mut c = BitCursor::new(v);
    assert_eq!(c.read_svbr(6).unwrap(), 1isize << 62);
}
''')

bug("limit-load", "C05", [
 (CUR, "        let block_bytes = if self.tell_byte() + Self::BLOCK_SIZE < self.byte_len() {",
       "        let block_bytes = if self.tell_byte() + Self::BLOCK_SIZE < self.inner.as_ref().len() {"),
], "a length-limited cursor whose buffer goes on past the limit, read within 8 bytes of the limit",
 "reads run past the limit of a length-limited cursor", r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let mut c = BitCursor::new_with_len(vec![0xffu8; 32], 4).unwrap();
    c.read(32).unwrap();
    assert!(c.read(8).is_err());
}
''')

bug("block-len-words", "B01", [
 (PAR, "let block_len = self.cursor.read(32)? * 4;", "let block_len = (self.cursor.read(32)? as u32).wrapping_mul(4).into();"),
], "a block whose length field is 2^30 words or more",
 "the reported block length wraps", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::empty();
    w.fixed(0xdec04342, 32);
    w.fixed(1, 2); w.vbr(8, 8); w.vbr(3, 4); w.align();
    w.fixed(0x4000_0001, 32);
    w.fixed(0, 32);
    let data = w.done();
    let (_, mut s) = Bitstream::from(&data[..]).unwrap();
    match s.next().unwrap().unwrap() {
        StreamEntry::SubBlock(b) => assert_eq!(b.len, 0x1_0000_0004),
        e => panic!("{e:?}"),
    }
}
''')

bug("unabbrev-ops", "B01", [
 (PAR, "        for _ in 0..num_opnds {\n            fields.push(self.cursor.read_vbr(6)?);",
       "        for _ in 0..num_opnds as u8 {\n            fields.push(self.cursor.read_vbr(6)?);"),
], "an unabbreviated record with at least 256 fields",
 "the operand count of unabbreviated records is truncated to 8 bits", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(8, 3);
    w.rec(7, &vec![0; 300]);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[1] { StreamEntry::Record(r) => assert_eq!(r.fields.len(), 300), e => panic!("{e:?}") }
}
''')

bug("blockinfo-last", "B02", [
 (PAR, "                .entry(block_id)\n                .or_insert_with(Vec::new)\n                .push(abbrev);",
       "                .entry(block_id)\n                .and_modify(|abbrevs| abbrevs.insert(0, abbrev.clone()))\n                .or_insert_with(|| vec![abbrev]);"),
], "a BLOCKINFO block which registers two or more abbreviations for one block",
 "registered abbreviations get each other's IDs", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(0, 2);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(1), Op::Fixed(8)]);
    w.define(&[Op::Lit(2), Op::Fixed(8)]);
    w.end();
    w.enter(9, 3);
    w.id(4); w.fixed(77, 8);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[1] { StreamEntry::Record(r) => assert_eq!((r.code, &r.fields[..]), (1, &[77][..])), e => panic!("{e:?}") }
}
''')

bug("blockinfo-nested", "B02", [
 (PAR, "        if let Some(abbrevs) = self.blockinfo.get(&block_id).map(|a| a.to_vec()) {\n            self.scope_mut().extend_abbrevs(abbrevs)?;",
       "        if let Some(abbrevs) = self.blockinfo.get(&block_id).filter(|_| self.scopes.len() <= 3).map(|a| a.to_vec()) {\n            self.scope_mut().extend_abbrevs(abbrevs)?;"),
], "a block with registered abbreviations, nested three deep",
 "registered abbreviations don't apply to deeply nested blocks", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(0, 2);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(1), Op::Fixed(8)]);
    w.end();
    w.enter(8, 3);
    w.enter(8, 3);
    w.enter(9, 3);
    w.id(4); w.fixed(77, 8);
    w.end();
    w.end();
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[3] { StreamEntry::Record(r) => assert_eq!((r.code, &r.fields[..]), (1, &[77][..])), e => panic!("{e:?}") }
}
''')

bug("setbid-sticky", "B02", [
 (PAR, "            *blockinfo_block_id = Some(new_bid);\n            return Ok(());",
       "            blockinfo_block_id.get_or_insert(new_bid);\n            return Ok(());"),
], "a BLOCKINFO block with two SETBID records", "abbreviations after a second SETBID are registered for the first block ID", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(0, 2);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(1), Op::Fixed(8)]);
    w.rec(1, &[10]);
    w.define(&[Op::Lit(2), Op::Fixed(8)]);
    w.end();
    w.enter(10, 3);
    w.id(4); w.fixed(77, 8);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[1] { StreamEntry::Record(r) => assert_eq!((r.code, &r.fields[..]), (2, &[77][..])), e => panic!("{e:?}") }
}
''')

bug("array-count", "B03", [
 (ABB, "                let array_len = cur.read_vbr(6)? as usize;", "                let array_len = cur.read_vbr(6)? as u8 as usize;"),
], "an array operand with 256 elements or more", "array lengths are truncated to 8 bits", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[Op::Lit(1), Op::Array, Op::Fixed(1)]);
    w.id(4); w.vbr(257, 6);
    for _ in 0..257 { w.fixed(1, 1); }
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[1] { StreamEntry::Record(r) => assert_eq!(r.fields.len(), 257), e => panic!("{e:?}") }
}
''')

bug("blob-align", "B03", [
 (ABB, "                let blob_len = cur.read_vbr(6)? as usize;\n                cur.align32();", "                let blob_len = cur.read_vbr(6)? as usize;\n                if blob_len > 0 {\n                    cur.align32();\n                }"),
 (ABB, "                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n                cur.align32();",
       "                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n                if blob_len > 0 {\n                    cur.align32();\n                }"),
], "an empty blob that isn't followed by an aligned position",
 "empty blobs aren't followed by their padding", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[Op::Lit(1), Op::Blob]);
    w.id(4); w.vbr(0, 6); w.align();
    w.rec(5, &[6]);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[2] { StreamEntry::Record(r) => assert_eq!((r.code, &r.fields[..]), (5, &[6][..])), e => panic!("{e:?}") }
}
''')

bug("literal-width", "B03", [
 (ABB, "                let val = cur.read_vbr(8)?;", "                let val = cur.read_vbr(8)? & u64::from(u32::MAX);"),
], "a literal operand of more than 32 bits", "literal operands are truncated to 32 bits", r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[Op::Lit(1), Op::Lit(0x1_0000_0005)]);
    w.id(4);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let e: Vec<_> = s.collect::<Result<_, _>>().unwrap();
    match &e[1] { StreamEntry::Record(r) => assert_eq!(r.fields, [0x1_0000_0005]), e => panic!("{e:?}") }
}
''')

bug("zero-abbrev", "B05", [
 (ABB, "        if num_abbrev_opnds < 1 {\n            return Err(Error::AbbrevParse(\n                \"expected at least one abbrev operand\".into(),\n            ));\n        }\n\n", ""),
 (ABB, "        // Abbreviated records must have at least one operand.\n        if num_abbrev_opnds < 1 {\n            return Err(Error::AbbrevParse(\n                \"expected abbrev operand count to be nonzero\".into(),\n            ));\n        }\n\n", ""),
], "an abbreviation definition without operands that is never used", "an empty abbreviation definition is accepted", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[]);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    assert!(s.collect::<Result<Vec<_>, _>>().is_err());
}
''')

bug("blob-anywhere", "B05", [
 (ABB, "                    if idx != num_abbrev_opnds - 1 {", "                    if idx > num_abbrev_opnds - 1 {"),
], "an abbreviation with a blob that isn't its last operand", "a blob operand is accepted at any index", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[Op::Lit(1), Op::Blob, Op::Fixed(8)]);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    assert!(s.collect::<Result<Vec<_>, _>>().is_err());
}
''')

bug("initial-unabbrev", "B05", [
 (PAR, "        if matches!(self.scope(), Scope::Initial) {\n            return Err(Error::StreamParse(\n                \"UNABBREV_RECORD outside of any block scope\".into(),\n            ));\n        }",
       "        if matches!(self.scope(), Scope::Initial) && self.blockinfo.is_empty() {\n            return Err(Error::StreamParse(\n                \"UNABBREV_RECORD outside of any block scope\".into(),\n            ));\n        }"),
], "a BLOCKINFO block that registers something, then a record outside of any block",
 "records outside of any block are accepted", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(0, 2);
    w.rec(1, &[9]);
    w.define(&[Op::Lit(1), Op::Fixed(8)]);
    w.end();
    w.rec(5, &[6, 7]);
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let mut s = s;
    assert!(s.next().unwrap().is_err());
}
''')

bug("abbrev-underflow", "B06", [
 (PAR, "                let idx = (abbrev_id as usize) - FIRST_APPLICATION_ABBREV_ID;\n                abbrevs.get(idx).ok_or(Error::BadAbbrev(abbrev_id))",
       "                let idx = (abbrev_id as usize) - FIRST_APPLICATION_ABBREV_ID;\n                if idx > abbrevs.len() {\n                    return Err(Error::BadAbbrev(abbrev_id));\n                }\n                Ok(&abbrevs[idx])"),
], "a record which uses the abbreviation ID that is one past the last defined one",
 "an undefined abbreviation ID panics", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.define(&[Op::Lit(1), Op::Fixed(8)]);
    w.id(5); w.fixed(1, 8);
    w.end();
    let data = w.done();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    for e in s { if e.is_err() { return; } }
}
''')

bug("wrapper-version", "B07", [
 (STR, "        if magic == BITCODE_WRAPPER_MAGIC {", "        if magic == BITCODE_WRAPPER_MAGIC && cur.read_exact::<u32>()? == 0 {"),
], "a bitcode wrapper whose version isn't 0", "a wrapper with another version is taken for a raw bitstream", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut inner = W::new();
    inner.enter(8, 3);
    inner.rec(1, &[2]);
    inner.end();
    let inner = inner.done();
    let mut data = vec![];
    for v in [0x0b17c0deu32, 1, 20, inner.len() as u32, 7] { data.extend(v.to_le_bytes()); }
    data.extend(&inner);
    let (wrapper, s) = Bitstream::from(&data[..]).unwrap();
    assert_eq!(wrapper.unwrap().version, 1);
    assert_eq!(s.magic, 0xdec04342);
    assert_eq!(s.collect::<Result<Vec<_>, _>>().unwrap().len(), 3);
}
''')

bug("wrapper-fields", "B07", [
 (STR, "            offset: cur.read_exact::<u32>()?,\n            size: cur.read_exact::<u32>()?,", "            offset: cur.read_exact::<u32>()? & 0xffff,\n            size: cur.read_exact::<u32>()?,"),
], "a wrapper whose bitstream begins at 64 KiB or later", "the wrapper's offset is truncated", r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut inner = W::new();
    inner.enter(8, 3);
    inner.end();
    let inner = inner.done();
    let mut data = vec![];
    for v in [0x0b17c0deu32, 0, 0x10000, inner.len() as u32, 7] { data.extend(v.to_le_bytes()); }
    data.resize(0x10000, 0);
    data.extend(&inner);
    let (wrapper, s) = Bitstream::from(&data[..]).unwrap();
    assert_eq!(wrapper.unwrap().offset, 0x10000);
    assert_eq!(s.magic, 0xdec04342);
    assert_eq!(s.collect::<Result<Vec<_>, _>>().unwrap().len(), 2);
}
''')

