//! Checks of the support types: alignments, types, specification lists, codes, opcodes, limits.

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;
use std::rc::Rc;

use llvm_mapper::block::BlockId;
use llvm_mapper::record::SelectionKind;
use llvm_support::bitcodes::*;
use llvm_support::*;

use crate::bits::boundary_values;
use crate::dl::{self, Kind, Ptr, Ptrs, Stop, Types};
use crate::runner::Ctx;
use crate::tables;
use crate::types::*;

fn ensure(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

fn eq<T: PartialEq + Debug>(what: impl FnOnce() -> String, got: T, want: T) -> Result<(), String> {
    ensure(got == want, || format!("{}: expected {want:?}, got {got:?}", what()))
}

/// Powers of two, sums of two of them, and what's around them.
fn interesting(around: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64 {
        for d in 0..=around {
            v.push((1u64 << k).wrapping_add(d));
            v.push((1u64 << k).wrapping_sub(d));
        }
        for j in 0..k {
            v.push((1 << k) + (1 << j));
            v.push((1 << k) - (1 << j));
        }
    }
    v.extend((0..=around).map(|d| u64::MAX - d));
    v.sort_unstable();
    v.dedup();
    v
}

// ---------------------------------------------------------------------------------------------
// S01

/// Everything that an alignment with this shift says about itself.
fn alignment(a: Align, shift: u8) -> Result<(), String> {
    eq(|| format!("shift of 2^{shift}"), a.shift(), shift)?;
    eq(|| format!("byte alignment of 2^{shift}"), a.byte_align(), 1u64 << shift)?;
    if shift < 61 {
        eq(|| format!("bit alignment of 2^{shift}"), a.bit_align(), 8u64 << shift)?;
    }
    eq(|| format!("text of 2^{shift}"), a.to_string(), (1u64 << shift).to_string())
}

fn byte_align(n: u64) -> Result<(), String> {
    match (Align::from_byte_align(n), n.is_power_of_two()) {
        (Ok(a), true) => alignment(a, n.trailing_zeros() as u8),
        (Err(_), false) => Ok(()),
        (r, _) => Err(format!("byte alignment {n} gives {r:?}")),
    }
}

fn bit_align(n: u64) -> Result<(), String> {
    match (Align::from_bit_align(n), n % 8 == 0 && (n / 8).is_power_of_two()) {
        (Ok(a), true) => alignment(a, (n / 8).trailing_zeros() as u8),
        (Err(_), false) => Ok(()),
        (r, _) => Err(format!("bit alignment {n} gives {r:?}")),
    }
}

pub fn s01(c: &mut Ctx) {
    c.case(
        || "every shift".into(),
        |c| {
            for s in 0..=255u8 {
                c.transitions(1);
                c.trace();
                match Align::from_shift(s) {
                    Ok(a) if s <= 63 => {
                        c.state(&s);
                        alignment(a, s)?
                    }
                    Err(_) if s > 63 => {}
                    r => return Err(format!("shift {s} gives {r:?}")),
                }
            }
            eq(|| "largest shift".into(), Align::MAX_SHIFT, 63)
        },
    );
    c.case(
        || "every encoded optional alignment".into(),
        |c| {
            let mut seen: Vec<MaybeAlign> = vec![];
            for n in 0..=255u8 {
                c.transitions(1);
                c.trace();
                match MaybeAlign::try_from(n) {
                    Ok(a) if n <= 64 => {
                        if let Some(p) = seen.iter().position(|b| *b == a) {
                            return Err(format!("{p} and {n} give the same optional alignment {a:?}"));
                        }
                        seen.push(a);
                        // Its value, as far as it can be seen.
                        let got: Vec<u64> = format!("{a:?}").split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
                        let want: Vec<u64> = if n == 0 { vec![] } else { vec![1 << (n - 1)] };
                        eq(|| format!("optional alignment {n} ({a:?})"), got, want)?;
                    }
                    Err(_) if n > 64 => {}
                    r => return Err(format!("optional alignment {n} gives {r:?}")),
                }
            }
            Ok(())
        },
    );
    c.case(
        || "every pair of alignments".into(),
        |c| {
            let all: Vec<Align> = (0..64).map(Align::from_shift).collect::<Result<_, _>>().map_err(|e| format!("{e:?}"))?;
            for (i, a) in all.iter().enumerate() {
                for (j, b) in all.iter().enumerate() {
                    c.transitions(4);
                    eq(|| format!("order of 2^{i} and 2^{j}"), a.cmp(b), i.cmp(&j))?;
                    eq(|| format!("partial order of 2^{i} and 2^{j}"), a.partial_cmp(b), Some(i.cmp(&j)))?;
                    eq(|| format!("equality of 2^{i} and 2^{j}"), a == b, i == j)?;
                    eq(|| format!("2^{i} < 2^{j}"), a < b, i < j)?;
                }
            }
            Ok(())
        },
    );
    c.case(
        || "named alignments".into(),
        |_| {
            for (i, a) in [Align::ALIGN8, Align::ALIGN16, Align::ALIGN32, Align::ALIGN64, Align::ALIGN128].into_iter().enumerate() {
                alignment(a, i as u8)?;
            }
            Ok(())
        },
    );
    let chunk = 1u64 << 16;
    for k in 0..c.q(1 << 12, 1 << 16) {
        c.case(
            || format!("byte and bit alignments from {}", k * chunk),
            |c| {
                for n in k * chunk..(k + 1) * chunk {
                    byte_align(n)?;
                    bit_align(n)?;
                }
                c.transitions(2 * chunk);
                c.count("values", chunk);
                Ok(())
            },
        );
    }
    let around = c.q(1 << 12, 1 << 17);
    for k in 0..64u32 {
        c.case(
            || format!("byte and bit alignments around 2^{k}, 3*2^{k}, ..., 63*2^{k}"),
            |c| {
                let mut n = 0;
                for m in 1..64u64 {
                    let Some(base) = (1u64 << k).checked_mul(m) else {
                        break;
                    };
                    let r = if m == 1 { around } else { around >> 6 };
                    for d in 0..=r {
                        for v in [base.wrapping_add(d), base.wrapping_sub(d)] {
                            byte_align(v)?;
                            bit_align(v)?;
                            n += 1;
                        }
                    }
                }
                c.transitions(2 * n);
                c.count("values", n);
                Ok(())
            },
        );
    }
    c.case(
        || "values with few bits".into(),
        |c| {
            let mut n = 0;
            for i in 0..64 {
                for j in 0..=i {
                    for k in 0..=j {
                        let v = (1u64 << i) | (1 << j) | (1 << k);
                        for v in [v, !v] {
                            byte_align(v)?;
                            bit_align(v)?;
                            n += 1;
                        }
                    }
                }
            }
            c.transitions(2 * n);
            c.count("values", n);
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// S02

fn p(t: Prim) -> T {
    Rc::new(Ty::P(t))
}

fn leaves() -> Vec<T> {
    let mut v: Vec<T> = PRIMS.iter().map(|t| p(*t)).collect();
    v.extend([1, 8, 32, MAX_INT].map(|w| Rc::new(Ty::Int(w))));
    v.extend([0, 1, MAX_SPACE].map(|s| Rc::new(Ty::Opaque(s))));
    v
}

/// Every single constructor application over these components, valid or not.
fn applications(of: &[T], pairs: bool) -> Vec<T> {
    let mut r = vec![];
    for t in of {
        for s in [0, 1, MAX_SPACE] {
            r.push(Ty::Ptr(t.clone(), s));
        }
        for n in [0, 1, 2, 1 << 32, u64::MAX] {
            r.push(Ty::Arr(n, t.clone()));
        }
        for n in [1, 2, 1 << 31] {
            r.push(Ty::Vec(n, t.clone()));
            r.push(Ty::SVec(n, t.clone()));
        }
        for packed in [false, true] {
            for name in [None, Some(String::new()), Some("s".to_string())] {
                r.push(Ty::Struct { name, fields: vec![t.clone()], packed });
            }
        }
        for vararg in [false, true] {
            r.push(Ty::Fun { ret: t.clone(), params: vec![], vararg });
            r.push(Ty::Fun { ret: p(Void), params: vec![t.clone()], vararg });
        }
        if pairs {
            for u in of {
                for packed in [false, true] {
                    r.push(Ty::Struct { name: None, fields: vec![t.clone(), u.clone()], packed });
                }
                r.push(Ty::Fun { ret: p(Float), params: vec![t.clone(), u.clone()], vararg: false });
                r.push(Ty::Fun { ret: t.clone(), params: vec![u.clone()], vararg: true });
            }
        }
    }
    for packed in [false, true] {
        r.push(Ty::Struct { name: None, fields: vec![], packed });
    }
    r.into_iter().map(Rc::new).collect()
}

/// Build a type whose components are valid, and compare everything that can be seen of it.
fn build(t: &Ty) -> Result<Option<Type>, String> {
    let real = match (t.real(), t.valid()) {
        (Err(_), false) => return Ok(None),
        (Ok(r), false) => return Err(format!("{t:?} isn't allowed, but built as {r:?}")),
        (Err(e), true) => return Err(format!("{t:?} is allowed, but fails with {e}")),
        (Ok(r), true) => r,
    };
    let bad = |what: &str| Err(format!("{what} of {t:?}: got {real:?}"));
    for (name, got, want) in [
        ("is_floating", real.is_floating(), t.floating()),
        ("is_integer", real.is_integer(), t.integer()),
        ("is_pointee", real.is_pointee(), t.pointee()),
        ("is_array_element", real.is_array_element(), t.array_element()),
        ("is_struct_element", real.is_struct_element(), t.struct_element()),
        ("is_vector_element", real.is_vector_element(), t.vector_element()),
        ("is_argument", real.is_argument(), t.argument()),
        ("is_return", real.is_return(), t.returned()),
        ("is_floating_or_floating_vector", real.is_floating_or_floating_vector(), t.scalar().floating()),
        ("is_integer_or_integer_vector", real.is_integer_or_integer_vector(), t.scalar().integer()),
    ] {
        if got != want {
            return Err(format!("{name} of {t:?}: expected {want}"));
        }
    }
    if *real.scalar_type() != t.scalar().real()? {
        return bad("scalar type");
    }
    if real.clone() != real {
        return bad("clone");
    }
    // Only the right variant, with the right components.
    match (t, &real) {
        (Ty::P(_), _) => {}
        (Ty::Int(w), Type::Integer(i)) => {
            if i.bit_width() != *w || i.byte_width() as u64 != (*w as u64).div_ceil(8) {
                return bad("width");
            }
        }
        (Ty::Fun { .. }, Type::Function(_)) => {}
        (Ty::Ptr(e, _), Type::Pointer(q)) => {
            if *q.pointee() != e.real()? {
                return bad("pointee");
            }
        }
        (Ty::Opaque(s), Type::OpaquePointer(a)) => {
            if *a != space(*s)? {
                return bad("address space");
            }
        }
        (Ty::Struct { name, fields, .. }, Type::Struct(s)) => {
            let want = fields.iter().map(|f| f.real()).collect::<Result<Vec<_>, _>>()?;
            if s.name != *name || s.fields != want {
                return bad("name and fields");
            }
        }
        (Ty::Arr(_, e), Type::Array(a)) => {
            if *a.element() != e.real()? {
                return bad("element");
            }
        }
        (Ty::Vec(_, e), Type::FixedVector(v)) | (Ty::SVec(_, e), Type::ScalableVector(v)) => {
            if *v.element() != e.real()? {
                return bad("element");
            }
        }
        _ => return bad("kind"),
    }
    Ok(Some(real))
}

pub fn s02(c: &mut Ctx) {
    let l0 = leaves();
    let l1: Vec<T> = applications(&l0, true);
    let v1: Vec<T> = l1.iter().filter(|t| t.valid()).cloned().collect();
    // A few types of each kind, as components of larger ones.
    let mut some: Vec<T> = vec![];
    let mut kinds: HashMap<String, usize> = HashMap::new();
    let per = c.q(10, 24);
    for t in l0.iter().chain(&v1) {
        let k = format!("{:?}", std::mem::discriminant(&**t));
        let n = kinds.entry(k).or_insert(0);
        *n += 1;
        if matches!(**t, Ty::P(_)) || *n <= per || (*n % 37 == 0 && *n < 37 * per) {
            some.push(t.clone());
        }
    }
    let l2 = applications(&some, true);
    let each = |c: &mut Ctx, what: &str, l: &[T]| {
        for (i, l) in l.chunks(64).enumerate() {
            c.case(
                || format!("{what}, part {i}: {:?} to {:?}", l[0], l[l.len() - 1]),
                |c| {
                    for t in l {
                        c.transitions(1);
                        c.trace();
                        if build(t)?.is_some() {
                            c.state(&**t);
                            c.count("allowed types", 1);
                        } else {
                            c.count("rejected types", 1);
                        }
                    }
                    Ok(())
                },
            );
        }
    };
    each(c, "types without components", &l0);
    each(c, "types over those", &l1);
    each(c, "types over some of those", &l2);
    // Deeper ones, over a small set of components.
    let mut layer: Vec<T> = vec![p(Void), p(Float), p(Token), p(Label), p(X86Amx), Rc::new(Ty::Int(8)), Rc::new(Ty::Opaque(0))];
    for depth in 2..c.q(4, 6) {
        let mut next = vec![];
        for t in &layer {
            for u in [
                Ty::Ptr(t.clone(), 0),
                Ty::Arr(2, t.clone()),
                Ty::Vec(2, t.clone()),
                Ty::SVec(2, t.clone()),
                Ty::Struct { name: None, fields: vec![t.clone()], packed: false },
                Ty::Fun { ret: t.clone(), params: vec![], vararg: false },
                Ty::Fun { ret: p(Void), params: vec![t.clone()], vararg: false },
            ] {
                next.push(Rc::new(u));
            }
        }
        each(c, &format!("types nested to depth {depth}"), &next);
        layer = next.into_iter().filter(|t| t.valid()).collect();
    }
    // Every number in a type is held.
    let mut numbers: Vec<u64> = boundary_values();
    numbers.extend(0..c.q(1500, 5000));
    numbers.extend((0..64).map(|k| (1 << 32) + k));
    numbers.sort_unstable();
    numbers.dedup();
    for (what, f) in [
        ("integers", (|n| Some(Ty::Int(u32::try_from(n).ok()?))) as fn(u64) -> Option<Ty>),
        ("arrays", |n| Some(Ty::Arr(n, p(Float)))),
        ("arrays of integers", |n| u32::try_from(n).ok().filter(|n| (1..=MAX_INT).contains(n)).map(|n| Ty::Arr(2, Rc::new(Ty::Int(n))))),
        ("vectors", |n| Some(Ty::Vec(n.try_into().ok()?, p(Float)))),
        ("scalable vectors", |n| Some(Ty::SVec(n.try_into().ok()?, Rc::new(Ty::Int(8))))),
        ("pointers", |n| u32::try_from(n).ok().filter(|n| *n <= MAX_SPACE).map(|n| Ty::Ptr(p(Float), n))),
        ("opaque pointers", |n| u32::try_from(n).ok().filter(|n| *n <= MAX_SPACE).map(Ty::Opaque)),
    ] {
        let all: Vec<(u64, Ty)> = numbers.iter().filter_map(|n| Some((*n, f(*n)?))).collect();
        for part in all.chunks(128) {
            c.case(
                || format!("{what} with numbers from {} on", part[0].0),
                |c| {
                    let some: Vec<(u64, Option<Type>)> = part.iter().map(|(n, t)| Ok((*n, build(t)?))).collect::<Result<_, String>>()?;
                    for (n, t) in &all {
                        c.step();
                        let Some(a) = build(t)? else { continue };
                        for (m, b) in &some {
                            if let Some(b) = b {
                                ensure((a == *b) == (n == m), || format!("equality of {what} with {n} and {m}"))?;
                            }
                        }
                        c.transitions(some.len() as u64);
                        c.trace();
                    }
                    Ok(())
                },
            );
        }
    }
    // Long lists: the position of the only bad component doesn't matter.
    for len in 1..c.q(6, 12) {
        c.case(
            || format!("structs and functions with {len} components"),
            |c| {
                for bad in &l0 {
                    for at in 0..len {
                        let mut v = vec![p(Float); len];
                        v[at] = bad.clone();
                        for t in [
                            Ty::Struct { name: None, fields: v.clone(), packed: false },
                            Ty::Fun { ret: p(Void), params: v.clone(), vararg: false },
                            Ty::Fun { ret: bad.clone(), params: v.clone(), vararg: true },
                        ] {
                            c.transitions(1);
                            c.trace();
                            build(&t)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for len in [16usize, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_001] {
        c.case(
            || format!("structs and functions with {len} components"),
            |c| {
                for at in [0, 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 254, 255, 256, 65_534, 65_535, 65_536, len / 2, len - 1] {
                    if at >= len {
                        continue;
                    }
                    for other in [p(Void), p(Double), p(Label), Rc::new(Ty::Fun { ret: p(Void), params: vec![], vararg: false })] {
                        let v = vec![p(Float); len];
                        let mut w = v.clone();
                        w[at] = other;
                        for (a, b) in [
                            (Ty::Struct { name: None, fields: v.clone(), packed: false }, Ty::Struct { name: None, fields: w.clone(), packed: false }),
                            (Ty::Fun { ret: p(Void), params: v.clone(), vararg: false }, Ty::Fun { ret: p(Void), params: w, vararg: false }),
                        ] {
                            c.transitions(2);
                            c.trace();
                            let text = |e: String| e.chars().take(300).collect::<String>();
                            let (a, b) = (build(&a).map_err(text)?, build(&b).map_err(text)?);
                            ensure(a.is_some(), || "floats aren't allowed".into())?;
                            ensure(b.is_none() || a != b, || format!("equality misses the difference in component {at}"))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // Structural equality: every pair.
    let all: Vec<T> = l0.iter().chain(&v1).chain(l2.iter().filter(|t| t.valid()).step_by(c.q(7, 5))).cloned().collect();
    c.case(
        || "distinct models".into(),
        |_| {
            let mut m: HashMap<&Ty, ()> = HashMap::new();
            for t in &all {
                m.insert(t, ());
            }
            Ok(())
        },
    );
    every_pair(c, "", all);
    // Every nest of a few constructors, each with two numbers: any two differ, if only at one level.
    let mut nests: Vec<T> = vec![p(Float), Rc::new(Ty::Int(8)), Rc::new(Ty::Int(16)), Rc::new(Ty::Opaque(1))];
    for depth in 1..=c.q(3, 4) {
        let mut next = vec![];
        for t in &nests {
            for n in [2, 3] {
                next.push(Ty::Ptr(t.clone(), n - 2));
                next.push(Ty::Arr(n.into(), t.clone()));
                next.push(Ty::Struct { name: None, fields: vec![t.clone(); n as usize - 1], packed: false });
                next.push(Ty::Fun { ret: t.clone(), params: vec![], vararg: n == 3 });
                next.push(Ty::Fun { ret: p(Void), params: vec![t.clone(); n as usize - 1], vararg: false });
                if depth == 1 {
                    next.push(Ty::Vec(n.into(), t.clone()));
                    next.push(Ty::SVec(n.into(), t.clone()));
                }
            }
            next.push(Ty::Struct { name: None, fields: vec![t.clone()], packed: true });
            next.push(Ty::Struct { name: Some("a".into()), fields: vec![t.clone()], packed: false });
            next.push(Ty::Struct { name: Some("b".into()), fields: vec![t.clone()], packed: false });
            next.push(Ty::Struct { name: None, fields: vec![p(Float), t.clone()], packed: false });
            next.push(Ty::Struct { name: None, fields: vec![t.clone(), p(Float)], packed: false });
        }
        let mut seen: HashMap<Ty, ()> = HashMap::new();
        nests = next.into_iter().filter(|t| t.valid() && seen.insert(t.clone(), ()).is_none()).map(Rc::new).collect();
        every_pair(c, &format!(" nested to depth {depth}"), nests.clone());
    }
    // The same outermost constructor over any two components, and any two constructors over the same one.
    for (i, part) in some.chunks(8).enumerate() {
        c.case(
            || format!("equality of types with the same component, part {i}"),
            |c| {
                for t in part {
                    compare(c, &applications(&[t.clone()], false))?;
                }
                Ok(())
            },
        );
    }
    let shapes: Vec<Vec<T>> = some.iter().map(|t| applications(&[t.clone()], false)).collect();
    for k in 0..shapes[0].len() {
        c.case(|| format!("equality of types with the same outermost constructor, {k}"), |c| compare(c, &shapes.iter().map(|s| s[k].clone()).collect::<Vec<_>>()));
    }
}

/// Compare every two of the valid ones of these types.
fn compare(c: &Ctx, l: &[T]) -> Result<(), String> {
    let l: Vec<&T> = l.iter().filter(|t| t.valid()).collect();
    let real: Vec<Type> = l.iter().map(|t| t.real().map_err(|e| format!("{t:?} fails with {e}"))).collect::<Result<_, _>>()?;
    for (t, r) in l.iter().zip(&real) {
        for (u, s) in l.iter().zip(&real) {
            let want = ***t == ***u;
            if (r == s) != want || (r != s) == want {
                return Err(format!("equality of {t:?} and {u:?} should be {want}"));
            }
        }
    }
    c.step();
    c.transitions((l.len() * l.len()) as u64);
    c.count("pairs compared", (l.len() * l.len()) as u64);
    Ok(())
}

/// Compare every two of these types, which are valid.
fn every_pair(c: &mut Ctx, what: &str, all: Vec<T>) {
    let n = all.len();
    let part = 64;
    for i in (0..n).step_by(part) {
        c.case(
            || format!("equality of types{what} {i} to {} with all {n} types", (i + part).min(n)),
            |c| {
                let real = |t: &T| t.real().map_err(|e| format!("{t:?} fails with {e}"));
                let some: Vec<Type> = all[i..(i + part).min(n)].iter().map(real).collect::<Result<_, _>>()?;
                for t in &all {
                    let r = real(t)?;
                    for (k, s) in some.iter().enumerate() {
                        let want = **t == *all[i + k];
                        if (r == *s) != want || (*s == r) != want {
                            return Err(format!("equality of {:?} and {t:?} should be {want}", all[i + k]));
                        }
                    }
                    c.step();
                }
                c.transitions((n * some.len()) as u64);
                c.count("pairs compared", (n * some.len()) as u64);
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// S03

fn spec(k: Kind, (abi, pref): (u64, u64)) -> Result<TypeAlignSpec, String> {
    let a = |n| Align::from_bit_align(n).map_err(|e| format!("{e:?}"));
    TypeAlignSpec::new(k.real()?, a(abi)?, a(pref)?).map_err(|e| format!("{e:?}"))
}

fn pspec(s: u32, q: &Ptr) -> Result<PointerAlignSpec, String> {
    let a = |n| Align::from_bit_align(n).map_err(|e| format!("{e:?}"));
    PointerAlignSpec::new(space(s)?, a(q.abi)?, a(q.pref)?, q.size, q.index).map_err(|e| format!("{e:?}"))
}

fn has(got: String, want: String) -> Result<(), String> {
    ensure(dl::listed(&got, &want), || format!("expected {want}, got {got}"))
}

/// A list under test, with its model.
trait List: Sized {
    type Update: Copy + Debug;
    type Model: Clone + Ord + std::hash::Hash + Debug;
    fn start() -> Self;
    fn model() -> Self::Model;
    fn apply(&mut self, u: Self::Update) -> Result<(), String>;
    fn step(m: &mut Self::Model, u: Self::Update);
    fn shown(&self) -> String;
    fn want(m: &Self::Model) -> Result<String, String>;
    /// Equality with another list that went through the same updates.
    fn same(&self, other: &Self) -> bool;
}

struct TypeList(TypeAlignSpecs);

impl List for TypeList {
    type Update = (Kind, (u64, u64));
    type Model = Types;
    fn start() -> Self {
        TypeList(TypeAlignSpecs::default())
    }
    fn model() -> Types {
        dl::default_types()
    }
    fn apply(&mut self, (k, a): Self::Update) -> Result<(), String> {
        self.0.update(spec(k, a)?);
        Ok(())
    }
    fn step(m: &mut Types, (k, a): Self::Update) {
        m.insert(k, a);
    }
    fn shown(&self) -> String {
        format!("{:?}", self.0)
    }
    fn want(m: &Types) -> Result<String, String> {
        dl::type_list(m)
    }
    fn same(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

struct PtrList(PointerAlignSpecs);

impl List for PtrList {
    type Update = (u32, (u64, u64, u64, u64));
    type Model = BTreeMap<u32, (u64, u64, u64, u64)>;
    fn start() -> Self {
        PtrList(PointerAlignSpecs::default())
    }
    fn model() -> Self::Model {
        dl::default_ptrs().into_iter().map(|(s, q)| (s, (q.abi, q.pref, q.size, q.index))).collect()
    }
    fn apply(&mut self, (s, q): Self::Update) -> Result<(), String> {
        self.0.update(pspec(s, &Ptr { abi: q.0, pref: q.1, size: q.2, index: q.3 })?);
        Ok(())
    }
    fn step(m: &mut Self::Model, (s, q): Self::Update) {
        m.insert(s, q);
    }
    fn shown(&self) -> String {
        format!("{:?}", self.0)
    }
    fn want(m: &Self::Model) -> Result<String, String> {
        let p: Ptrs = m.iter().map(|(s, q)| (*s, Ptr { abi: q.0, pref: q.1, size: q.2, index: q.3 })).collect();
        dl::pointer_list(&p)
    }
    fn same(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

fn replay<L: List>(path: &[L::Update]) -> Result<L, String> {
    let mut l = L::start();
    for u in path {
        l.apply(*u)?;
    }
    Ok(l)
}

/// Breadth-first, from the defaults to the fixpoint: all reachable states and all transitions.
fn reachable<L: List>(c: &Ctx, updates: &[L::Update]) -> Result<(), String> {
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut queue: VecDeque<(Vec<L::Update>, L::Model)> = VecDeque::new();
    let start = L::start();
    has(start.shown(), L::want(&L::model())?)?;
    seen.insert(start.shown(), ());
    queue.push_back((vec![], L::model()));
    while let Some((path, m)) = queue.pop_front() {
        for u in updates {
            let mut l = replay::<L>(&path)?;
            l.apply(*u)?;
            let mut m = m.clone();
            L::step(&mut m, *u);
            c.transitions(1);
            let shown = l.shown();
            has(shown.clone(), L::want(&m)?).map_err(|e| format!("after {path:?} and {u:?}: {e}"))?;
            if !seen.contains_key(&shown) {
                c.state(&shown);
                seen.insert(shown, ());
                let mut path = path.clone();
                path.push(*u);
                queue.push_back((path, m));
            }
        }
        c.step();
    }
    c.count("reachable states", seen.len() as u64);
    Ok(())
}

/// One history, looked at after every update.
fn along<L: List>(c: &Ctx, path: impl IntoIterator<Item = L::Update>) -> Result<(), String> {
    let (mut l, mut m) = (L::start(), L::model());
    for (i, u) in path.into_iter().enumerate() {
        l.apply(u)?;
        L::step(&mut m, u);
        has(l.shown(), L::want(&m)?).map_err(|e| format!("after {} updates, the last of which is {u:?}: {e}", i + 1))?;
        c.transitions(1);
        c.state(&m);
    }
    c.step();
    c.trace();
    Ok(())
}

/// Every history of this length that starts this way.
fn histories<L: List>(c: &Ctx, start: &[L::Update], updates: &[L::Update], len: usize) -> Result<(), String> {
    let n = updates.len();
    for mut code in 0..n.pow((len - start.len()) as u32) {
        let mut path = start.to_vec();
        while path.len() < len {
            path.push(updates[code % n]);
            code /= n;
        }
        let mut m = L::model();
        for u in &path {
            L::step(&mut m, *u);
        }
        let l = replay::<L>(&path)?;
        has(l.shown(), L::want(&m)?).map_err(|e| format!("after {path:?}: {e}"))?;
        ensure(l.same(&replay::<L>(&path)?), || format!("the same updates {path:?} give different lists"))?;
        c.transitions(len as u64);
        c.trace();
        c.state(&m);
        c.step();
    }
    Ok(())
}

pub fn s03(c: &mut Ctx) {
    use Kind::*;
    let mut kinds = vec![Agg, Float(16), Float(17), Int(1), Int(63), Int(64), Vector(1), Vector(128)];
    if c.thorough() {
        kinds.extend([Float(1), Vector(8388607)]);
    }
    let types: Vec<(Kind, (u64, u64))> = kinds.iter().flat_map(|k| [(*k, (8, 8)), (*k, (16, 1 << 18))]).collect();
    c.case(|| format!("all lists reachable by updates {types:?}"), |c| reachable::<TypeList>(c, &types));
    let spaces: &[u32] = if c.thorough() { &[0, 1, 2, 3, 100, 8388606, MAX_SPACE] } else { &[0, 1, 2, 200, MAX_SPACE] };
    let ptrs: Vec<_> = spaces.iter().flat_map(|s| [(64, 64, 64, 64), (8, 16, 32, 24), (8, 8, 32, 32)].map(|q| (*s, q))).collect();
    c.case(|| format!("all lists reachable by pointer updates {ptrs:?}"), |c| reachable::<PtrList>(c, &ptrs));
    // Around the defaults, more widths.
    let mut near: Vec<(Kind, (u64, u64))> = vec![(Agg, (32, 32))];
    for k in [Float, Int, Vector] {
        for w in [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 1 << 16, (1 << 23) - 1] {
            near.push((k(w), (32, 64)));
        }
    }
    for a in near.clone() {
        c.case(|| format!("histories of two updates, starting with {a:?}"), |c| histories::<TypeList>(c, &[a], &near, 2));
        if c.thorough() {
            c.case(|| format!("histories of three updates, starting with {a:?}"), |c| histories::<TypeList>(c, &[a], &near, 3));
        }
    }
    let len = c.q(4, 5);
    for a in types.clone() {
        for b in types.clone() {
            c.case(|| format!("histories of {len} updates, starting with {a:?}, {b:?}"), |c| histories::<TypeList>(c, &[a, b], &types[..16], len));
        }
    }
    for a in ptrs.clone() {
        for b in ptrs.clone() {
            c.case(|| format!("histories of {len} pointer updates, starting with {a:?}, {b:?}"), |c| histories::<PtrList>(c, &[a, b], &ptrs[..15], len));
        }
    }
    // Every order of insertion.
    let new = [Float(1), Float(24), Int(3), Int(129), Vector(32), Vector(65), Agg];
    for p in crate::mapper::permutations(new.len()) {
        if p.len() == new.len() {
            c.case(
                || format!("insertion order {p:?}"),
                |c| {
                    let path: Vec<_> = p.iter().map(|i| (new[*i], (8u64 << (*i % 4), 256u64))).collect();
                    histories::<TypeList>(c, &path, &[], path.len())
                },
            );
        }
    }
    // Long lists, in several orders, then updated once more in the same order.
    for n in [10u32, 16, 20, 32, 50, 64, 100, 128, c.q(257, 700)] {
        // Multiples of numbers that are coprime to the length.
        for by in [1, n - 1, n / 2 - 1 + n / 2 % 2, 3, 7] {
            if by == 0 || (2..=by).any(|d| by % d == 0 && n % d == 0) {
                continue;
            }
            let order = move || (0..2 * n).map(move |i| (i * by % n, i >= n));
            for k in 0..3 {
                c.case(
                    || format!("{n} type specifications by {by}, kind {k}"),
                    |c| {
                        along::<TypeList>(
                            c,
                            order().map(|(i, again)| {
                                let w = 3 * i + 1;
                                let kind = match (k, i % 3) {
                                    (0, _) | (1, 0) => Vector(w),
                                    (2, _) | (1, 1) => Int(w),
                                    _ => Float(w),
                                };
                                (kind, if again { (8, 16) } else { (32, 32 << (i % 4)) })
                            }),
                        )
                    },
                );
            }
            c.case(
                || format!("{n} pointer specifications by {by}"),
                |c| along::<PtrList>(c, order().map(|(i, again)| (i * 5, if again { (8, 16, 32, 24) } else { (64, 64, 64, i as u64 + 1) }))),
            );
        }
    }
    // The comparisons that sorting is based on.
    c.case(
        || "order of types".into(),
        |c| {
            let mut v: Vec<Kind> = vec![Agg];
            for k in [Float, Int, Vector] {
                v.extend([1, 2, 8, 16, 64, 65536, (1 << 23) - 1].map(k));
            }
            for a in &v {
                for b in &v {
                    let (x, y) = (a.real()?, b.real()?);
                    eq(|| format!("order of {a:?} and {b:?}"), x.cmp(&y), a.cmp(b))?;
                    eq(|| format!("equality of {a:?} and {b:?}"), x == y, a == b)?;
                    let (x, y) = (spec(*a, (8, 64))?, spec(*b, (16, 16))?);
                    eq(|| format!("order of specifications of {a:?} and {b:?}"), x.cmp(&y), a.cmp(b))?;
                    c.transitions(3);
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// S04

/// Exactly these codes decode, to exactly these entities.
fn codes<E: Debug + PartialEq, X>(c: &mut Ctx, name: &str, values: &[u64], decode: impl Fn(u64) -> Result<E, X>, table: Vec<(u64, E)>) {
    c.case(
        || format!("codes of {name}"),
        |c| {
            for v in values {
                let want = table.iter().find(|(k, _)| k == v).map(|(_, e)| e);
                let got = decode(*v);
                match (&got, want) {
                    (Ok(g), Some(w)) if g == w => {}
                    (Err(_), None) => {}
                    (g, w) => {
                        return Err(format!("{name} {v}: expected {w:?}, got {:?}", g.as_ref().ok()));
                    }
                }
            }
            c.transitions(values.len() as u64);
            c.trace();
            for (v, _) in &table {
                c.state(&(name, *v));
                if !values.contains(v) {
                    return Err(format!("{name} {v} isn't covered"));
                }
            }
            Ok(())
        },
    );
}

/// All codes decode, to these entities or the default.
fn lenient<E: Debug + PartialEq>(c: &mut Ctx, name: &str, values: &[u64], decode: impl Fn(u64) -> E, table: Vec<(u64, E)>, default: E) {
    c.case(
        || format!("codes of {name}"),
        |c| {
            for v in values {
                let want = table.iter().find(|(k, _)| k == v).map_or(&default, |(_, e)| e);
                let got = decode(*v);
                ensure(got == *want, || format!("{name} {v}: expected {want:?}, got {got:?}"))?;
            }
            c.transitions(values.len() as u64);
            c.trace();
            for (v, _) in &table {
                c.state(&(name, *v));
            }
            Ok(())
        },
    );
}

/// And back.
fn back<E: Into<u64>>(c: &mut Ctx, name: &str, table: Vec<(u64, E)>) {
    c.case(
        || format!("{name} back to codes"),
        |c| {
            for (v, e) in table {
                c.transitions(1);
                eq(|| name.to_string(), e.into(), v)?;
            }
            Ok(())
        },
    );
}

macro_rules! table {
    ($e:ident: $($n:literal $v:ident),* $(,)?) => { vec![$(($n as u64, $e::$v)),*] };
}

pub fn s04(c: &mut Ctx) {
    let mut values: Vec<u64> = (0..c.q(70000, 1 << 22)).collect();
    values.extend(interesting(c.q(256, 4096)));
    values.sort_unstable();
    values.dedup();
    let v = &values[..];

    let reserved = || table!(ReservedBlockId: 0 BlockInfo, 1 Reserved1, 2 Reserved2, 3 Reserved3, 4 Reserved4, 5 Reserved5, 6 Reserved6, 7 Reserved7);
    let ir = || {
        table!(IrBlockId: 8 Module, 9 ParamAttr, 10 ParamAttrGroup, 11 Constants, 12 Function, 13 Identification, 14 ValueSymtab,
            15 Metadata, 16 MetadataAttachment, 17 Type, 18 Uselist, 19 ModuleStrtab, 20 GlobalValSummary, 21 OperandBundleTags,
            22 MetadataKind, 23 Strtab, 24 FullLtoGlobalValSummary, 25 Symtab, 26 SyncScopeNames)
    };
    codes(c, "ReservedBlockId", v, ReservedBlockId::try_from, reserved());
    codes(c, "IrBlockId", v, IrBlockId::try_from, ir());
    c.case(
        || "block IDs".into(),
        |c| {
            let (r, i) = (reserved(), ir());
            for v in v {
                let want = match (r.iter().find(|(k, _)| k == v), i.iter().find(|(k, _)| k == v)) {
                    (Some((_, x)), _) => BlockId::Reserved(*x),
                    (_, Some((_, x))) => BlockId::Ir(*x),
                    _ => BlockId::Unknown(*v),
                };
                eq(|| format!("block ID {v}"), BlockId::from(*v), want)?;
            }
            for (_, x) in r {
                eq(|| format!("{x:?}"), BlockId::from(x), BlockId::Reserved(x))?;
            }
            for (_, x) in i {
                eq(|| format!("{x:?}"), BlockId::from(x), BlockId::Ir(x))?;
            }
            c.transitions(v.len() as u64);
            Ok(())
        },
    );
    codes(c, "ReservedAbbrevId", v, ReservedAbbrevId::try_from, table!(ReservedAbbrevId: 0 EndBlock, 1 EnterSubBlock, 2 DefineAbbrev, 3 UnabbrevRecord));
    codes(c, "AbbrevOpEnc", v, AbbrevOpEnc::try_from, table!(AbbrevOpEnc: 1 Fixed, 2 Vbr, 3 Array, 4 Char6, 5 Blob));
    codes(c, "BlockInfoCode", v, BlockInfoCode::try_from, table!(BlockInfoCode: 1 SetBid, 2 BlockName, 3 SetRecordName));
    codes(c, "IdentificationCode", v, IdentificationCode::try_from, table!(IdentificationCode: 1 ProducerString, 2 Epoch));
    let module = || {
        table!(ModuleCode: 1 Version, 2 Triple, 3 DataLayout, 4 Asm, 5 SectionName, 6 DepLib, 7 GlobalVar, 8 Function, 9 AliasOld,
            11 GcName, 12 Comdat, 13 VstOffset, 14 Alias, 15 MetadataValuesUnused, 16 SourceFilename, 17 Hash, 18 IFunc)
    };
    codes(c, "ModuleCode", v, ModuleCode::try_from, module());
    back(c, "ModuleCode", module());
    let types = || {
        table!(TypeCode: 1 NumEntry, 2 Void, 3 Float, 4 Double, 5 Label, 6 Opaque, 7 Integer, 8 Pointer, 9 FunctionOld, 10 Half,
            11 Array, 12 Vector, 13 X86Fp80, 14 Fp128, 15 PpcFp128, 16 Metadata, 17 X86Mmx, 18 StructAnon, 19 StructName,
            20 StructNamed, 21 Function, 22 Token, 23 BFloat, 24 X86Amx, 25 OpaquePointer)
    };
    codes(c, "TypeCode", v, TypeCode::try_from, types());
    back(c, "TypeCode", types());
    codes(c, "StrtabCode", v, StrtabCode::try_from, table!(StrtabCode: 1 Blob));
    codes(c, "SymtabCode", v, SymtabCode::try_from, table!(SymtabCode: 1 Blob));
    let attribute = || table!(AttributeCode: 1 EntryOld, 2 Entry, 3 GroupCodeEntry);
    codes(c, "AttributeCode", v, AttributeCode::try_from, attribute());
    back(c, "AttributeCode", attribute());
    let function = || {
        table!(FunctionCode: 1 DeclareBlocks, 2 InstBinop, 3 InstCast, 4 InstGepOld, 5 InstSelect, 6 InstExtractelt,
            7 InstInsertelt, 8 InstShufflevec, 9 InstCmp, 10 InstRet, 11 InstBr, 12 InstSwitch, 13 InstInvoke, 15 InstUnreachable,
            16 InstPhi, 19 InstAlloca, 20 InstLoad, 23 InstVaarg, 24 InstStoreOld, 26 InstExtractval, 27 InstInsertval,
            28 InstCmp2, 29 InstVselect, 30 InstInboundsGepOld, 31 InstIndirectbr, 33 DebugLocAgain, 34 InstCall, 35 DebugLoc,
            36 InstFence, 37 InstCmpxchgOld, 38 InstAtomicrmwOld, 39 InstResume, 40 InstLandingpadOld, 41 InstLoadatomic,
            42 InstStoreatomicOld, 43 InstGep, 44 InstStore, 45 InstStoreatomic, 46 InstCmpxchg, 47 InstLandingpad,
            48 InstCleanupret, 49 InstCatchret, 50 InstCatchpad, 51 InstCleanuppad, 52 InstCatchswitch, 55 OperandBundle,
            56 InstUnop, 57 Instcallbr, 58 InstFreeze, 59 InstAtomicrmw)
    };
    codes(c, "FunctionCode", v, FunctionCode::try_from, function());
    back(c, "FunctionCode", function());
    codes(c, "UnaryOpcode", v, UnaryOpcode::try_from, table!(UnaryOpcode: 0 FNeg));
    let binary = || table!(BinaryOpcode: 0 Add, 1 Sub, 2 Mul, 3 UDiv, 4 SDiv, 5 URem, 6 SRem, 7 Shl, 8 LShr, 9 AShr, 10 And, 11 Or, 12 Xor);
    codes(c, "BinaryOpcode", v, BinaryOpcode::try_from, binary());
    back(c, "BinaryOpcode", binary());
    let rmw = || table!(RMWOperation: 0 Xchg, 1 Add, 2 Sub, 3 And, 4 Nand, 5 Or, 6 Xor, 7 Max, 8 Min, 9 UMax, 10 UMin, 11 FAdd, 12 FSub);
    codes(c, "RMWOperation", v, RMWOperation::try_from, rmw());
    back(c, "RMWOperation", rmw());
    codes(c, "AttributeKind", v, AttributeKind::try_from, table!(AttributeKind: 0 Enum, 1 IntKeyValue, 3 StrKey, 4 StrKeyValue));
    codes(c, "AttributeId", v, AttributeId::try_from, tables::ATTRIBUTES.into());
    codes(c, "CallingConvention", v, CallingConvention::try_from, tables::CALLING_CONVENTIONS.into());
    lenient(c, "Linkage", v, Linkage::from, tables::LINKAGES.into(), Linkage::External);
    let visibility = || table!(Visibility: 0 Default, 1 Hidden, 2 Protected);
    codes(c, "Visibility", v, Visibility::try_from, visibility());
    back(c, "Visibility", visibility());
    let storage = || table!(DllStorageClass: 0 Default, 1 Import, 2 Export);
    codes(c, "DllStorageClass", v, DllStorageClass::try_from, storage());
    back(c, "DllStorageClass", storage());
    let tls = || table!(ThreadLocalMode: 0 NotThreadLocal, 1 GeneralDynamicTls, 2 LocalDynamicTls, 3 InitialExecTls, 4 LocalExecTls);
    lenient(c, "ThreadLocalMode", v, ThreadLocalMode::from, tls(), ThreadLocalMode::GeneralDynamicTls);
    back(c, "ThreadLocalMode", tls());
    let unnamed = || table!(UnnamedAddr: 0 None, 1 Global, 2 Local);
    lenient(c, "UnnamedAddr", v, UnnamedAddr::from, unnamed(), UnnamedAddr::None);
    back(c, "UnnamedAddr", unnamed());
    let preemption = || table!(RuntimePreemption: 0 DsoPreemptable, 1 DsoLocal);
    lenient(c, "RuntimePreemption", v, RuntimePreemption::from, preemption(), RuntimePreemption::DsoPreemptable);
    back(c, "RuntimePreemption", preemption());
    let kind = |k: &SelectionKind| match k {
        SelectionKind::Any => "any",
        SelectionKind::ExactMatch => "exact match",
        SelectionKind::Largest => "largest",
        SelectionKind::NoDeduplicate => "no duplicates",
        SelectionKind::SameSize => "same size",
        #[allow(unreachable_patterns)]
        _ => "?",
    };
    codes(c, "SelectionKind", v, |v| SelectionKind::try_from(v).map(|k| kind(&k)), vec![(1, "any"), (2, "exact match"), (3, "largest"), (4, "no duplicates"), (5, "same size")]);
}

// ---------------------------------------------------------------------------------------------
// S05

pub fn s05(c: &mut Ctx) {
    // LLVM's operations for integers and floating point (`getDecodedBinaryOpcode`).
    use BinaryOp as B;
    let table = [
        (0, B::Add, Some(B::FAdd)),
        (1, B::Sub, Some(B::FSub)),
        (2, B::Mul, Some(B::FMul)),
        (3, B::UDiv, None),
        (4, B::SDiv, Some(B::FDiv)),
        (5, B::URem, None),
        (6, B::SRem, Some(B::FRem)),
        (7, B::Shl, None),
        (8, B::LShr, None),
        (9, B::AShr, None),
        (10, B::And, None),
        (11, B::Or, None),
        (12, B::Xor, None),
    ];
    let mut codes: Vec<u64> = (0..c.q(300, 70000)).collect();
    codes.extend(interesting(c.q(8, 64)));
    let l0 = leaves();
    let l1 = applications(&l0, false);
    let v1: Vec<T> = l1.into_iter().filter(|t| t.valid()).collect();
    let l2: Vec<T> = applications(&v1, false).into_iter().filter(|t| t.valid()).step_by(c.q(7, 1)).collect();
    let mut types: Vec<T> = l0;
    types.extend(
        PRIMS
            .iter()
            .map(|t| p(*t))
            .chain((1..=130).map(|w| Rc::new(Ty::Int(w))))
            .flat_map(|t| [1, 2, 3, 4, 16, 1 << 32, u64::MAX].into_iter().flat_map(move |n| [Ty::Vec(n, t.clone()), Ty::SVec(n, t.clone())]).map(Rc::new))
            .filter(|t| t.valid()),
    );
    types.extend((1..=130).map(|w| Rc::new(Ty::Int(w))));
    types.extend(v1);
    let deep = l2;
    for (what, types, codes) in [("type", &types, &codes[..]), ("larger type", &deep, &codes[..c.q(20, 300)])] {
        for (i, part) in types.chunks(16).enumerate() {
            c.case(
                || format!("opcodes for {what}s {:?} ({i})", part[0]),
                |c| {
                    for t in part {
                        let real = t.real()?;
                        let s = t.scalar();
                        for code in codes {
                            let entry = table.iter().find(|e| e.0 == *code);
                            let want = match entry {
                                Some(e) if s.integer() => Some(e.1),
                                Some(e) if s.floating() => e.2,
                                _ => None,
                            };
                            let got = BinaryOp::try_from((*code, &real));
                            let d = |b: &BinaryOp| std::mem::discriminant(b);
                            if got.as_ref().ok().map(d) != want.as_ref().map(d) {
                                return Err(format!("opcode {code} on {t:?}: expected {want:?}, got {got:?}"));
                            }
                        }
                        c.state(&**t);
                        c.trace();
                        c.transitions(codes.len() as u64);
                        c.step();
                    }
                    Ok(())
                },
            );
        }
    }
    c.case(
        || "unary opcodes".into(),
        |c| {
            for code in &codes {
                c.transitions(1);
                match UnaryOp::try_from(*code) {
                    Ok(UnaryOp::FNeg) if *code == 0 => {}
                    Err(_) if *code != 0 => {}
                    r => return Err(format!("unary opcode {code} gives {r:?}")),
                }
            }
            ensure(matches!(UnaryOp::from(UnaryOpcode::FNeg), UnaryOp::FNeg), || "fneg".into())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// S06

fn type_string(c: &Ctx, s: &str) -> Result<(), String> {
    let want = dl::type_spec(s);
    let got = s.parse::<TypeAlignSpec>();
    match (&want, &got) {
        (Err(Stop::Unspec(_)), _) => c.count("specifications whose meaning isn't specified", 1),
        (Err(Stop::Reject(_)), Err(_)) => {}
        (Ok((k, a, p)), Ok(g)) => {
            let w = spec(*k, (*a, *p))?;
            let f = |t: &TypeAlignSpec| (t.aligned_type, t.abi_alignment, t.preferred_alignment);
            ensure(f(g) == f(&w), || format!("{s:?}: expected {w:?}, got {g:?}"))?;
            c.count("type specifications accepted", 1);
            if !matches!(k, Kind::Int(w) | Kind::Float(w) | Kind::Vector(w) if *w > 4096) {
                c.state(&(k, a, p));
            }
        }
        _ => return Err(format!("{s:?}: expected {want:?}, got {got:?}")),
    }
    Ok(())
}

fn pointer_string(c: &Ctx, s: &str) -> Result<(), String> {
    let want = dl::pointer_spec(s);
    let got = s.parse::<PointerAlignSpec>();
    match (&want, &got) {
        (Err(Stop::Unspec(_)), _) => c.count("specifications whose meaning isn't specified", 1),
        (Err(Stop::Reject(_)), Err(_)) => {}
        (Ok((sp, q)), Ok(g)) => {
            let w = pspec(*sp, q)?;
            let f = |t: &PointerAlignSpec| (t.address_space, t.abi_alignment, t.preferred_alignment, t.pointer_size, t.index_size);
            ensure(f(g) == f(&w), || format!("{s:?}: expected {w:?}, got {g:?}"))?;
            c.count("pointer specifications accepted", 1);
            if *sp < 4096 && q.size < 4096 {
                c.state(&(sp, q));
            }
        }
        _ => return Err(format!("{s:?}: expected {want:?}, got {got:?}")),
    }
    Ok(())
}

fn both(c: &Ctx, s: &str) -> Result<(), String> {
    c.transitions(2);
    type_string(c, s)?;
    pointer_string(c, s)
}

fn extend(c: &Ctx, s: &mut String, alphabet: &[char], left: usize) -> Result<(), String> {
    both(c, s)?;
    if left > 0 {
        for ch in alphabet {
            s.push(*ch);
            extend(c, s, alphabet, left - 1)?;
            s.pop();
        }
    }
    Ok(())
}

/// Every combination of these components, up to this many.
fn combine(c: &Ctx, s: &mut String, parts: &[&str], left: usize) -> Result<(), String> {
    both(c, s)?;
    if left > 0 {
        let n = s.len();
        for p in parts {
            s.push(':');
            s.push_str(p);
            combine(c, s, parts, left - 1)?;
            s.truncate(n);
        }
    }
    Ok(())
}

pub fn s06(c: &mut Ctx) {
    let alphabet = ['a', 'i', 'v', 'f', 'p', ':', '0', '1', '8', '6', '4', '3', '2', '-', '+', ' ', 'é'];
    let len = c.q(6, 7);
    c.case(|| "the empty string".into(), |c| both(c, ""));
    for a in alphabet {
        for b in alphabet {
            c.case(
                || format!("strings of at most {len} characters starting with {a:?} {b:?}"),
                |c| {
                    type_string(c, &a.to_string())?;
                    pointer_string(c, &a.to_string())?;
                    extend(c, &mut format!("{a}{b}"), &alphabet, len - 2)?;
                    c.trace();
                    Ok(())
                },
            );
        }
    }
    // Only what matters in the middle: longer strings over fewer characters.
    let few = [':', '8', '1', '6', '0', '+'];
    let len = c.q(8, 10);
    for id in ["a", "i", "v", "f", "p", "p1", "i8", "x"] {
        for a in few {
            c.case(
                || format!("{id}{a} and at most {} characters of {few:?}", len - 1),
                |c| {
                    c.step();
                    extend(c, &mut format!("{id}{a}"), &few, len - 1)?;
                    c.trace();
                    Ok(())
                },
            );
        }
    }
    let numbers = [
        "",
        "0",
        "00",
        "08",
        "1",
        "7",
        "8",
        "9",
        "12",
        "16",
        "24",
        "32",
        "48",
        "64",
        "128",
        "0128",
        "65536",
        "131072",
        "262144",
        "524288",
        "8388607",
        "8388608",
        "16777216",
        "4294967295",
        "4294967296",
        "9223372036854775808",
        "18446744073709551608",
        "18446744073709551615",
        "18446744073709551616",
        "99999999999999999999999",
        "+8",
        "-8",
        " 8",
        "8 ",
        "8a",
        "0x8",
        "8.0",
        "８",
        "8_0",
        "é",
        "8\u{0}",
        "\u{0}",
    ];
    let short: Vec<&str> = c.q(
        vec!["", "0", "8", "16", "12", "32", "64", "262144", "524288", "+8", "8a"],
        vec!["", "0", "8", "16", "12", "24", "32", "64", "262144", "524288", "+8", "8a", "9223372036854775808", "18446744073709551616"],
    );
    for id in ["a", "i", "v", "f", "p", "x", "A", "I", "", "é", "s", "n"] {
        for w in numbers {
            let n = c.q(2, 3);
            c.case(
                || format!("{id}{w} with at most {n} of all components"),
                |c| {
                    combine(c, &mut format!("{id}{w}"), &numbers, n)?;
                    c.trace();
                    c.step();
                    Ok(())
                },
            );
            c.case(
                || format!("{id}{w} with at most 4 components"),
                |c| {
                    combine(c, &mut format!("{id}{w}"), &short, 4)?;
                    c.trace();
                    Ok(())
                },
            );
        }
    }
    // Every width and every alignment that could be written.
    for k in 0..c.q(16u64, 256) {
        c.case(
            || format!("every width and alignment, part {k}"),
            |c| {
                let parts = c.q(16u64, 256);
                let top = c.q(1u64 << 17, 1 << 23) + 2;
                for w in (k * top / parts)..((k + 1) * top / parts) {
                    both(c, &format!("i{w}:8"))?;
                    both(c, &format!("v{w}:8:16"))?;
                    both(c, &format!("f{w}:32:32"))?;
                    both(c, &format!("i8:{w}"))?;
                    both(c, &format!("i8:8:{w}"))?;
                    both(c, &format!("a:{w}"))?;
                    both(c, &format!("p{w}:64:64"))?;
                    both(c, &format!("p:64:{w}"))?;
                    both(c, &format!("p:{w}:64"))?;
                    both(c, &format!("p:64:8:{w}:32"))?;
                    both(c, &format!("p:64:8:8:{w}"))?;
                    if w % 4096 == 0 {
                        c.step();
                    }
                }
                c.trace();
                Ok(())
            },
        );
    }
    c.case(
        || "boundary numbers".into(),
        |c| {
            for w in interesting(16).iter().map(|w| w.to_string()).chain((0..40).map(|d| (u64::MAX as u128 + d).to_string())) {
                for s in [
                    format!("i{w}:8"),
                    format!("v{w}:8:16"),
                    format!("f{w}:32:32"),
                    format!("i8:{w}"),
                    format!("i8:{w}:{w}"),
                    format!("i8:8:{w}"),
                    format!("a:{w}"),
                    format!("a:8:{w}"),
                    format!("a{w}:8"),
                    format!("p{w}:64:64"),
                    format!("p:64:{w}"),
                    format!("p:64:{w}:{w}"),
                    format!("p:{w}:64"),
                    format!("p:64:8:{w}:32"),
                    format!("p:64:8:8:{w}"),
                    format!("p:{w}:8:8:{w}"),
                ] {
                    both(c, &s)?;
                }
            }
            c.trace();
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// S07

fn integer(w: u32) -> Result<(), String> {
    let ok = (1..=MAX_INT).contains(&w);
    match IntegerType::try_from(w) {
        Ok(t) if ok => {
            if t.bit_width() != w || t.byte_width() != w.div_ceil(8) {
                return Err(format!("integer width {w} reads back as {} bits, {} bytes", t.bit_width(), t.byte_width()));
            }
            Ok(())
        }
        Err(_) if !ok => Ok(()),
        r => Err(format!("integer width {w} gives {r:?}")),
    }
}

fn type_width(w: u32) -> Result<Option<AlignedTypeWidth>, String> {
    let ok = (1..=(1 << 23) - 1).contains(&w);
    match AlignedTypeWidth::try_from(w) {
        Ok(t) if ok => Ok(Some(t)),
        Err(_) if !ok => Ok(None),
        r => Err(format!("type width {w} gives {r:?}")),
    }
}

fn space32(w: u32) -> Result<Option<AddressSpace>, String> {
    match AddressSpace::try_from(w) {
        Ok(t) if w <= MAX_SPACE => Ok(Some(t)),
        Err(_) if w > MAX_SPACE => Ok(None),
        r => Err(format!("address space {w} (32 bits) gives {r:?}")),
    }
}

fn space64(w: u64) -> Result<Option<AddressSpace>, String> {
    match AddressSpace::try_from(w) {
        Ok(t) if w <= MAX_SPACE as u64 => Ok(Some(t)),
        Err(_) if w > MAX_SPACE as u64 => Ok(None),
        r => Err(format!("address space {w} (64 bits) gives {r:?}")),
    }
}

/// The only number in the text.
fn number(t: impl Debug) -> Option<u64> {
    let s = format!("{t:?}");
    let mut n = s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty());
    match (n.next(), n.next()) {
        (Some(n), None) => n.parse().ok(),
        _ => None,
    }
}

pub fn s07(c: &mut Ctx) {
    let chunk = 1u64 << 20;
    // Thorough: every 32-bit value there is.
    for k in 0..c.q(1 << 9, 1 << 12) {
        c.case(
            || format!("widths and address spaces from {}", k * chunk),
            |c| {
                let (mut width, mut space) = (None, None);
                for v in k * chunk..(k + 1) * chunk {
                    let v32 = v as u32;
                    integer(v32)?;
                    match Type::new_integer(v32) {
                        Ok(Type::Integer(t)) if t.bit_width() == v32 && (1..=MAX_INT).contains(&v32) => {}
                        Err(_) if !(1..=MAX_INT).contains(&v32) => {}
                        r => return Err(format!("integer type of width {v}: {r:?}")),
                    }
                    let w = type_width(v32)?;
                    if let (Some(a), Some(b)) = (width, w) {
                        ensure(a < b && a != b, || format!("type width {v} isn't larger than the one before"))?;
                    }
                    width = w;
                    let s = space32(v32)?;
                    let t = space64(v)?;
                    ensure(s == t, || format!("address space {v} from 32 bits is {s:?}, from 64 bits {t:?}"))?;
                    if let (Some(a), Some(b)) = (space, s) {
                        ensure(a < b && a != b, || format!("address space {v} isn't larger than the one before"))?;
                    }
                    space = s;
                    // The value that's kept.
                    if v % 128 < 2 || v < 70_000 {
                        if let Some(w) = w {
                            eq(|| format!("value of width {v}"), number(w), Some(v))?;
                        }
                        if let Some(s) = s {
                            eq(|| format!("value of address space {v}"), number(s), Some(v))?;
                        }
                        c.step();
                    }
                }
                c.transitions(4 * chunk);
                c.count("values", chunk);
                Ok(())
            },
        );
    }
    c.case(
        || "boundary values".into(),
        |c| {
            for v in interesting(c.q(4096, 65536)) {
                space64(v)?;
                space64(v.wrapping_add(5) << 32)?;
                let v32 = v as u32;
                integer(v32)?;
                type_width(v32)?;
                space32(v32)?;
                let ty = Type::new_integer(v32);
                ensure(ty.is_ok() == (1..=MAX_INT).contains(&v32), || format!("integer type of width {v32}: {ty:?}"))?;
                c.transitions(6);
            }
            Ok(())
        },
    );
    c.case(
        || "named limits".into(),
        |_| {
            eq(|| "AlignedTypeWidth::MAX".into(), AlignedTypeWidth::MAX, (1 << 23) - 1)?;
            eq(|| "AddressSpace::MAX".into(), AddressSpace::MAX, (1 << 23) - 1)?;
            eq(|| "MIN_INT_BITS".into(), IntegerType::MIN_INT_BITS, 1)?;
            eq(|| "MAX_INT_BITS".into(), IntegerType::MAX_INT_BITS, (1 << 24) - 1)?;
            eq(|| "MAX_TYPE_BIT_WIDTH".into(), TypeAlignSpec::MAX_TYPE_BIT_WIDTH, (1 << 23) - 1)?;
            eq(|| "MAX_ALIGN".into(), TypeAlignSpec::MAX_ALIGN.shift(), 15)?;
            eq(|| "default address space".into(), Some(AddressSpace::default()), space32(0)?)?;
            for (w, a) in [
                (1, AlignedTypeWidth::WIDTH1),
                (8, AlignedTypeWidth::WIDTH8),
                (16, AlignedTypeWidth::WIDTH16),
                (32, AlignedTypeWidth::WIDTH32),
                (64, AlignedTypeWidth::WIDTH64),
                (128, AlignedTypeWidth::WIDTH128),
            ] {
                eq(|| format!("width {w}"), Some(a), type_width(w)?)?;
            }
            for (k, a) in [
                (Kind::Float(16), AlignedType::FLOAT16),
                (Kind::Float(32), AlignedType::FLOAT32),
                (Kind::Float(64), AlignedType::FLOAT64),
                (Kind::Float(128), AlignedType::FLOAT128),
                (Kind::Int(1), AlignedType::INTEGER1),
                (Kind::Int(8), AlignedType::INTEGER8),
                (Kind::Int(16), AlignedType::INTEGER16),
                (Kind::Int(32), AlignedType::INTEGER32),
                (Kind::Int(64), AlignedType::INTEGER64),
                (Kind::Vector(64), AlignedType::VECTOR64),
                (Kind::Vector(128), AlignedType::VECTOR128),
            ] {
                eq(|| format!("{k:?}"), a, k.real()?)?;
            }
            Ok(())
        },
    );
    let kinds = [Kind::Agg, Kind::Float(1), Kind::Float(64), Kind::Int(1), Kind::Int(8388607), Kind::Vector(3), Kind::Vector(8388607)];
    c.case(
        || "every pair of alignments of types".into(),
        |c| {
            for k in kinds {
                for abi in 0..64u8 {
                    for pref in 0..64u8 {
                        c.transitions(1);
                        c.trace();
                        let a = |s| Align::from_shift(s).map_err(|e| format!("{e:?}"));
                        let r = TypeAlignSpec::new(k.real()?, a(abi)?, a(pref)?);
                        match r {
                            Ok(s) if abi <= pref && pref <= 15 => {
                                let got = (s.aligned_type, s.abi_alignment, s.preferred_alignment);
                                eq(|| format!("{k:?}, 2^{abi}, 2^{pref}"), got, (k.real()?, a(abi)?, a(pref)?))?;
                                c.state(&(k, abi, pref));
                            }
                            Err(_) if abi > pref || pref > 15 => {}
                            r => return Err(format!("{k:?} with alignments 2^{abi} and 2^{pref} gives {r:?}")),
                        }
                    }
                }
            }
            Ok(())
        },
    );
    c.case(
        || "every pair of alignments of pointers".into(),
        |c| {
            for s in [0, 1, MAX_SPACE] {
                for (size, index) in [(64, 64), (32, 16), (8, 8), (128, 64)] {
                    for abi in 0..64u8 {
                        for pref in 0..64u8 {
                            c.transitions(1);
                            c.trace();
                            let a = |s| Align::from_shift(s).map_err(|e| format!("{e:?}"));
                            let r = PointerAlignSpec::new(space(s)?, a(abi)?, a(pref)?, size, index);
                            match r {
                                Ok(p) if abi <= pref => {
                                    let got = (p.address_space, p.abi_alignment, p.preferred_alignment, p.pointer_size, p.index_size);
                                    eq(|| format!("{s}, 2^{abi}, 2^{pref}, {size}, {index}"), got, (space(s)?, a(abi)?, a(pref)?, size, index))?;
                                    c.state(&(s, abi, pref, size, index));
                                }
                                Err(_) if abi > pref => {}
                                r => return Err(format!("pointers with alignments 2^{abi} and 2^{pref} give {r:?}")),
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
}
