BUGS = []
UNR = "llvm-mapper/src/unroll.rs"
MOD = "llvm-mapper/src/block/module.rs"
TAB = "llvm-mapper/src/block/strtab.rs"
TYP = "llvm-mapper/src/block/type_table.rs"
ATT = "llvm-mapper/src/block/attributes.rs"
FUN = "llvm-mapper/src/record/function.rs"
ALI = "llvm-mapper/src/record/alias.rs"
COM = "llvm-mapper/src/record/comdat.rs"
DL = "llvm-mapper/src/record/datalayout.rs"
FBL = "llvm-mapper/src/block/function/mod.rs"

def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

OBS = r'''
use llvm_mapper::Bitcode;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;
/// Map the data and return what `f` sees of each module.
fn observe(data: &[u8], f: fn(&llvm_mapper::map::MapCtx, &[llvm_mapper::record::Function], &[llvm_mapper::record::Alias]) -> String) -> Result<Vec<String>, String> {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    llvm_mapper::verif::set_observer(Some(Box::new(move |c, fs, als| s.borrow_mut().push(f(c, fs, als)))));
    let r = Bitcode::try_from(data);
    llvm_mapper::verif::set_observer(None);
    r.map_err(|e| format!("{e:?}"))?;
    let v = seen.borrow().clone();
    Ok(v)
}
'''

MAP = r'''
use llvm_mapper::Bitcode;
use std::convert::TryFrom;
'''

bug("strtab-filter", "M01", [
 (UNR, "                        .rev()\n                        .take_while(|p| p.strtab.is_none())", "                        .rev()\n                        .take(2)\n                        .take_while(|p| p.strtab.is_none())"),
], "three or more modules which share one string table", "only the last two modules before a string table get it", MAP + r'''
fn main() {
    let mut w = W::new();
    for _ in 0..3 {
        w.ident();
        w.module(|w| { w.plain_types(); w.vst(); });
    }
    w.strtab(b"names");
    let b = Bitcode::try_from(&w.done()[..]).unwrap();
    assert_eq!(b.modules.len(), 3);
}
''')

bug("symtab-shared", "M01", [
 (UNR, "                        .take_while(|p| p.symtab.is_none())\n                    {\n                        prev_partial.symtab = Some(top_block.clone());",
       "                        .take_while(|p| p.symtab.is_none() && p.strtab.is_none())\n                    {\n                        prev_partial.symtab = Some(top_block.clone());"),
], "a symbol table after the string table of its module", "a symbol table that follows the string table is dropped", MAP + r'''
fn main() {
    let mut w = W::new();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.strtab(b"names");
    w.symtab(b"symbols");
    let b = Bitcode::try_from(&w.done()[..]).unwrap();
    assert_eq!(b.modules[0].symtab.as_ref().unwrap().as_ref(), b"symbols");
}
''')

bug("lone-ident", "M01", [
 (UNR, "        let mut partial_modules = Vec::new();", "        let mut partial_modules: Vec<PartialBitcodeModule> = Vec::new();"),
 (UNR, "                    partial_modules.push(PartialBitcodeModule::new(top_block));",
       "                    match partial_modules.last_mut() {\n                        Some(last) if last.module.is_none() => last.identification = top_block,\n                        _ => partial_modules.push(PartialBitcodeModule::new(top_block)),\n                    }"),
], "two identification blocks in a row", "an identification without a module is accepted", MAP + r'''
fn main() {
    let mut w = W::new();
    w.ident();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.strtab(b"names");
    assert!(Bitcode::try_from(&w.done()[..]).is_err());
}
''')

bug("trim-nul", "M02", [
 (UNR, "        let raw = self.0.fields[idx..]\n            .iter()\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?;\n\n        // Finally",
       "        let raw = self.0.fields[idx..]\n            .iter()\n            .take_while(|f| **f != 0)\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?;\n\n        // Finally"),
], "a string record with a zero byte in it", "strings are cut at the first zero byte", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.text(2, "a\0b-c"); w.plain_types(); w.vst(); });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.triple, "a\0b-c");
}
''')

bug("blob-truncate", "M02", [
 (UNR, "        // Each individual field in our blob must fit into a byte.\n        Ok(self.0.fields[idx..]\n            .iter()\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?)",
       "        // Each individual field in our blob must fit into a byte.\n        Ok(self.0.fields[idx..]\n            .iter()\n            .map(|f| u16::try_from(*f).map(|f| f as u8))\n            .collect::<Result<Vec<_>, _>>()?)"),
], "a string or symbol table whose blob was written with fields over 255", "bytes over 255 in a blob are truncated instead of rejected", MAP + r'''
fn main() {
    let mut w = W::new();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.enter(23, 3);
    w.rec(1, &[65, 256 + 66, 67]);
    w.end();
    assert!(Bitcode::try_from(&w.done()[..]).is_err());
}
''')

bug("epoch-code", "M02", [
 ("llvm-mapper/src/block/identification.rs", "            .one(IdentificationCode::Epoch as u64)\n            .ok_or(IdentificationError::MissingEpoch)\n            .and_then(|r| r.fields().first()", "            .one(IdentificationCode::Epoch as u64)\n            .ok_or(IdentificationError::MissingEpoch)\n            .and_then(|r| r.fields().last()"),
], "an epoch record with more than one field", "the epoch is taken from the wrong field", MAP + r'''
fn main() {
    let mut w = W::new();
    w.enter(13, 3);
    w.text(1, "LLVM17");
    w.rec(2, &[3, 4]);
    w.end();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.strtab(b"names");
    assert_eq!(Bitcode::try_from(&w.done()[..]).unwrap().modules[0].identification.epoch, 3);
}
''')

bug("strtab-get", "M03", [
 (TAB, "        self.try_get(sref).ok()", "        let end = sref.offset.wrapping_add(sref.size);\n        self.0.get(sref.offset..end).and_then(|s| std::str::from_utf8(s).ok()).filter(|s| !s.is_empty() && end <= self.0.len()).map(|s| s.trim_end_matches('\\0'))"),
], "a string with trailing zero bytes, looked up with the optional lookup", "the optional and the fallible string table lookup disagree", MAP + r'''
use llvm_support::StrtabRef;
fn main() {
    let data = bitcode(b"ab\0cd", |w| { w.plain_types(); w.vst(); });
    let b = Bitcode::try_from(&data[..]).unwrap();
    let t = &b.modules[0].strtab;
    let r: StrtabRef = (0usize, 3usize).into();
    assert_eq!(t.get(&r), t.try_get(&r).ok());
    assert_eq!(t.get(&r), Some("ab\0"));
}
''')

bug("vector-scalable", "M04", [
 (TYP, "record.fields().get(2).map_or_else(|| false, |f| *f > 0)", "record.fields().get(2).is_some()"),
], "a vector record with an explicit third field of zero", "a vector whose scalable flag is 0 becomes scalable", OBS + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.types(&[(7, vec![32]), (12, vec![4, 0, 0])]); w.vst(); });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::types(c)[1])).unwrap();
    assert!(got[0].contains("FixedVector"), "{got:?}");
}
''')

bug("name-leak", "M04", [
 (TYP, "                        name: Some(last_type_name.clone()),\n                        field_types,\n                        is_packed,\n                    }));\n\n                    last_type_name.clear();",
       "                        name: Some(last_type_name.clone()),\n                        field_types,\n                        is_packed,\n                    }));\n\n                    if !is_packed {\n                        last_type_name.clear();\n                    }"),
], "a packed named struct followed by another named struct", "a packed struct's name leaks into the next one's", OBS + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.types(&[(7, vec![32]), (19, vec![97, 98]), (20, vec![1, 0]), (19, vec![99, 100]), (20, vec![0, 0])]); w.vst(); });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::types(c)[2])).unwrap();
    assert!(got[0].contains("\"cd\""), "{got:?}");
}
''')

bug("type-count", "M04", [
 (TYP, "        if self.inner.len() != self.numentries {", "        if self.inner.len() > self.numentries {"),
], "a type table with fewer types than it declares", "a type table with missing entries is accepted", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(17, 4); w.rec(1, &[5]); w.rec(2, &[]); w.rec(3, &[]); w.end(); w.vst();
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("type-ref-narrow", "M04", [
 (TYP, "                    let element_type = TypeRef(type_field!(1) as usize);\n\n                    partial_types.add(PartialType::Array",
       "                    let element_type = TypeRef(type_field!(1) as u32 as usize);\n\n                    partial_types.add(PartialType::Array"),
], "an array record whose element type index is 2^32 or more", "a dangling element type reference is truncated to a valid one", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.types(&[(7, vec![32]), (11, vec![4, 1 << 32])]); w.vst(); });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("allocsize-none", "M05", [
 (ATT, "                    u32::MAX => None,\n                    num_elts => Some(num_elts),", "                    u32::MAX | 0 => None,\n                    num_elts => Some(num_elts),"),
], "an allocsize attribute whose second argument is parameter 0", "allocsize(1, 0) loses its second argument", OBS + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &[1, 0xffffffff, 1, 51, 1 << 32]); w.end();
        w.enter(9, 3); w.rec(2, &[1]); w.end();
        w.plain_types(); w.vst();
    });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::attribute_group(c, 1))).unwrap();
    assert!(got[0].contains("AllocSize(1, Some(0))"), "{got:?}");
}
''')

bug("group-order", "M05", [
 (ATT, "                    for group_id in record.fields() {\n                        let group_id = *group_id as u32;", "                    let mut ids = record.fields().to_vec();\n                    ids.dedup();\n                    for group_id in &ids {\n                        let group_id = *group_id as u32;"),
], "an attribute list which names the same group twice in a row", "repeated groups in an attribute list are dropped", OBS + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &[1, 0xffffffff, 0, 5]); w.end();
        w.enter(9, 3); w.rec(2, &[1, 1]); w.end();
        w.plain_types(); w.vst();
    });
    let got = observe(&data, |c, _, _| format!("{}", llvm_mapper::verif::attribute_entries(c)[0].groups().len())).unwrap();
    assert_eq!(got, ["2"]);
}
''')

bug("attr-multibyte", "M05", [
 (ATT, "                    fieldcount += result.as_bytes().len() + 1;", "                    fieldcount += result.chars().count() + 1;"),
], "a string attribute with characters outside of ASCII", "string attributes with multi-byte characters are rejected", MAP + r'''
fn main() {
    let mut rec = vec![1, 0xffffffff, 3];
    rec.extend("é".bytes().map(u64::from));
    rec.push(0);
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &rec); w.end();
        w.plain_types(); w.vst();
    });
    Bitcode::try_from(&data[..]).unwrap();
}
''')

bug("group-param", "M05", [
 (ATT, "            let disposition: AttributeGroupDisposition = (record.fields()[1] as u32).into();", "            let disposition: AttributeGroupDisposition = u32::from(record.fields()[1] as u8 as i8 as u32).into();"),
], "an attribute group for a parameter past the 127th", "attribute groups of high-numbered parameters are assigned to another target", OBS + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(10, 3); w.rec(3, &[1, 300, 0, 5]); w.end();
        w.plain_types(); w.vst();
    });
    let got = observe(&data, |c, _, _| format!("{:?}", llvm_mapper::verif::attribute_group(c, 1).unwrap().disposition)).unwrap();
    assert_eq!(got, ["Parameter(300)"]);
}
''')

def fn_demo(fields, show, want, pre=""):
    return OBS + f'''
fn main() {{
    let data = bitcode(b"func", |w| {{
        {pre}
        w.plain_types(); w.vst();
        w.rec(8, &{fields});
    }});
    let got = observe(&data, |_, f, _| format!("{{:?}}", {show})).unwrap();
    assert_eq!(got, [{want}]);
}}
'''

bug("gc-range", "M06", [
 (FUN, "                        .map(AsRef::as_ref)\n                        .ok_or(FunctionError::Gc(idx - 1)),", "                        .or_else(|| ctx.gc_table.last())\n                        .map(AsRef::as_ref)\n                        .ok_or(FunctionError::Gc(idx - 1)),"),
], "a function whose collector index is out of range in a module which has collector names", "an invalid garbage collector index falls back to the last collector", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.text(11, "erlang");
        w.plain_types(); w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 0, 0, 0, 0, 2]);
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("fn-dll-field", "M06", [
 (FUN, "        let storage_class = fields.get(13).map_or_else(", "        let storage_class = fields.get(13).filter(|_| fields.len() > 14).map_or_else("),
], "a function record that ends with its storage class", "the storage class is ignored in records that end with it",
 fn_demo("[0, 4, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 2]", "f[0].storage_class", '"Export"'))

bug("fn-attr-index", "M06", [
 (FUN, "                    ctx.attributes\n                        .get(paramattr - 1)", "                    ctx.attributes\n                        .get((paramattr - 1) & 0xff)"),
], "a function with an attribute list ID of 257 or more, in a module with fewer lists", "attribute list IDs wrap", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.enter(10, 3); w.rec(3, &[1, 0xffffffff, 0, 5]); w.end();
        w.enter(9, 3); w.rec(2, &[1]); w.end();
        w.plain_types(); w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 257, 0, 0, 0]);
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("fn-isproto", "M06", [
 (FUN, "        let is_declaration = fields[4] != 0;", "        let is_declaration = fields[4] == 1;"),
], "a function record whose prototype flag is a nonzero number other than one", "a declaration is taken for a definition",
 fn_demo("[0, 4, 1, 0, 2, 0, 0, 0, 0, 0]", "f[0].is_declaration", '"true"'))

bug("alias-tls", "M07", [
 (ALI, "            .copied()\n            .map(ThreadLocalMode::from)\n            .unwrap_or(ThreadLocalMode::NotThreadLocal);", "            .copied()\n            .filter(|mode| *mode < 5)\n            .map(ThreadLocalMode::from)\n            .unwrap_or(ThreadLocalMode::NotThreadLocal);"),
], "an alias with an unknown thread-local mode", "unknown thread-local modes of aliases become not thread-local", OBS + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.plain_types(); w.vst();
        w.rec(14, &[0, 4, 0, 0, 9, 0, 0, 0, 5, 0, 0]);
    });
    let got = observe(&data, |_, _, a| format!("{:?}", a[0].tls_mode)).unwrap();
    assert_eq!(got, ["GeneralDynamicTls"]);
}
''')

bug("alias-visibility", "M07", [
 (ALI, "            .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;", "            .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v % 4))?;"),
], "an alias record with a visibility of 4 or more", "invalid visibilities of aliases are accepted", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.plain_types(); w.vst();
        w.rec(14, &[0, 4, 0, 0, 9, 0, 5]);
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("comdat-length", "M08", [
 (COM, "        if record.fields().len() != 3 {", "        if record.fields().len() < 3 {"),
], "a COMDAT record with more than three fields", "overlong COMDAT records are accepted", MAP + r'''
fn main() {
    let data = bitcode(b"comd", |w| {
        w.plain_types(); w.vst();
        w.rec(12, &[0, 4, 1, 7]);
    });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("comdat-dedup", "M08", [
 (MOD, "            .map(|rec| Comdat::try_map(rec, ctx))\n            .collect::<Result<Vec<_>, _>>()?;", "            .map(|rec| Comdat::try_map(rec, ctx))\n            .collect::<Result<Vec<_>, _>>()?;\n        ctx.comdats.dedup_by(|a, b| a.name == b.name);"),
], "x", "x", "")
BUGS[-1].update(id="comdat-dedup", needs="two COMDAT records in a row with the same name", breaks="repeated COMDATs are merged, which shifts the following indices")
BUGS[-1]["edits"] = [(MOD, "        ctx.comdats = block\n            .records\n            .by_code(ModuleCode::Comdat)\n            .map(|rec| Comdat::try_map(rec, ctx))\n            .collect::<Result<Vec<_>, _>>()?;", "        let mut comdats = block\n            .records\n            .by_code(ModuleCode::Comdat)\n            .map(|rec| Comdat::try_map(rec, ctx))\n            .collect::<Result<Vec<_>, _>>()?;\n        comdats.dedup_by(|a, b| a.name == b.name);\n        ctx.comdats = comdats;")]
BUGS[-1]["demo"] = OBS + r'''
fn main() {
    let data = bitcode(b"comd", |w| {
        w.plain_types(); w.vst();
        w.rec(12, &[0, 4, 1]);
        w.rec(12, &[0, 4, 2]);
        w.rec(12, &[1, 2, 3]);
    });
    let got = observe(&data, |c, _, _| c.comdats.len().to_string()).unwrap();
    assert_eq!(got, ["3"]);
}
'''

bug("dl-stack-reset", "M09", [
 (DL, "                'E' => datalayout.endianness = Endian::Big,", "                'E' if datalayout.pointer_alignments == PointerAlignSpecs::default() => {\n                    datalayout.endianness = Endian::Big\n                }\n                'E' => {}"),
], "a data layout with a little-endian spec, a pointer spec and then a big-endian spec", "a later E doesn't override an earlier e", r'''
use llvm_mapper::record::DataLayout;
use llvm_support::Endian;
fn main() {
    let d: DataLayout = "e-p:32:32-E".parse().unwrap();
    assert_eq!(d.endianness, Endian::Big);
}
''')

bug("dl-ni-replace", "M09", [
 (DL, "                            datalayout.non_integral_address_spaces = body[2..]", "                            datalayout.native_integer_widths.clear();\n                            datalayout.non_integral_address_spaces = body[2..]"),
], "a data layout with native widths before the non-integral address spaces", "ni specs reset the native integer widths", r'''
use llvm_mapper::record::DataLayout;
fn main() {
    let d: DataLayout = "n8:16-ni:1".parse().unwrap();
    assert_eq!(d.native_integer_widths, [8, 16]);
}
''')

bug("asm-lines", "M10", [
 (MOD, "                .split('\\n')\n                .map(String::from)", "                .lines()\n                .map(String::from)"),
], "inline assembly which ends in a newline or has carriage returns", "inline assembly lines are normalised", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.text(4, "a\r\nb\n"); w.plain_types(); w.vst(); });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.asm, ["a\r", "b", ""]);
}
''')

bug("sections-skip", "M10", [
 (MOD, "            .by_code(ModuleCode::SectionName)\n            .map(|rec| rec.try_string(0))\n            .collect::<Result<Vec<_>, _>>()", "            .by_code(ModuleCode::SectionName)\n            .map(|rec| rec.try_string(0))\n            .filter(|name| !matches!(name, Err(crate::record::RecordStringError::BadCharacter(_))))\n            .collect::<Result<Vec<_>, _>>()"),
], "a section name record with a field over 255", "malformed section names are skipped, which shifts the section indices", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.rec(5, &[97, 300, 98]); w.plain_types(); w.vst(); });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("triple-twice", "M10", [
 (UNR, "                None => Ok(Some(r)),\n                Some(_) => Err(ConsistencyError::TooManyRecords(code)),", "                None => Ok(Some(r)),\n                Some(o) if o.fields() == r.fields() => Ok(Some(r)),\n                Some(_) => Err(ConsistencyError::TooManyRecords(code)),"),
], "a module with two or more equal triple, assembly or data layout records", "repeated records are accepted if they're equal", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| { w.text(2, "x86"); w.text(2, "x86"); w.text(2, "arm"); w.plain_types(); w.vst(); });
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')

bug("fn-index", "M11", [
 (FUN, "        if fields.len() < 10 {", "        if fields.len() < 9 {"),
], "a function record with exactly 9 fields", "a function record that lacks its visibility panics", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.plain_types(); w.vst();
        w.rec(8, &[0, 4, 1, 0, 1, 0, 0, 0, 0]);
    });
    let _ = Bitcode::try_from(&data[..]);
}
''')

bug("struct-slice", "M11", [
 (ATT, "            if record.fields().len() < 3 {", "            if record.fields().is_empty() {"),
], "an attribute group record with one field", "a short attribute group record panics", MAP + r'''
fn main() {
    let data = bitcode(b"func", |w| {
        w.enter(10, 3); w.rec(3, &[1]); w.end();
        w.plain_types(); w.vst();
    });
    let _ = Bitcode::try_from(&data[..]);
}
''')

bug("abbrev-sensitive", "M12", [
 (UNR, "        self.0.iter().filter(move |r| r.code() == code)", "        self.0.iter().filter(move |r| r.code() == code && r.0.abbrev_id.map_or(true, |id| id < 16))"),
], "a module record written with an abbreviation ID of 16 or more", "records with high abbreviation IDs are ignored", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(0, 2); w.end();
        w.plain_types(); w.vst();
    });
    Bitcode::try_from(&data[..]).unwrap();
    let mut w = W::new();
    w.ident();
    w.enter(8, 5);
    for _ in 0..20 { w.define(&[Op::Lit(1), Op::Vbr(6)]); }
    w.id(23); w.vbr(2, 6);
    w.plain_types(); w.vst();
    w.end();
    w.strtab(b"names");
    Bitcode::try_from(&w.done()[..]).unwrap();
}
''')

bug("unknown-block", "M12", [
 (UNR, "                    StreamEntry::SubBlock(block) => {\n                        let unrolled_child", "                    StreamEntry::SubBlock(block) if block.block_id >= 64 => {\n                        // Blocks that LLVM doesn't know are of no interest.\n                        while !matches!(bitstream.advance()?, StreamEntry::EndBlock) {}\n                    }\n                    StreamEntry::SubBlock(block) => {\n                        let unrolled_child"),
], "an unknown sub-block which has sub-blocks of its own", "nested unknown blocks end their parent early", MAP + r'''
fn main() {
    let data = bitcode(b"names", |w| {
        w.enter(70, 3); w.enter(71, 3); w.end(); w.end();
        w.text(2, "x86");
        w.plain_types(); w.vst();
    });
    assert_eq!(Bitcode::try_from(&data[..]).unwrap().modules[0].module.triple, "x86");
}
''')

bug("cut-module", "B08", [
 (UNR, "                let entry = bitstream\n                    .next()\n                    .ok_or_else(|| Error::Unroll(\"unexpected stream end during unroll\".into()))?;\n", "                let entry = match bitstream.next() {\n                    None if depth == 0 => break,\n                    entry => entry\n                        .ok_or_else(|| Error::Unroll(\"unexpected stream end during unroll\".into()))?,\n                };\n"),
], "a bitcode file that was cut right between two records of its last top-level block, at the end of a word", "a cut symbol or string table block is accepted", MAP + r'''
fn main() {
    // A string table with two records; the file is cut after the first.
    let mut w = W::new();
    w.ident();
    w.module(|w| { w.plain_types(); w.vst(); });
    w.strtab(b"names");
    w.enter(23, 3);
    let mut v = w;
    // Leave the block open.
    v.rec(9, &[1]);
    while v.len() % 32 != 0 { v.id(3); v.vbr(9, 6); v.vbr(0, 6); if v.len() > 100000 { std::process::exit(3); } }
    let bits = v.len();
    v.end();
    let mut data = v.done();
    data.truncate(bits / 8);
    assert!(Bitcode::try_from(&data[..]).is_err());
}
''')
