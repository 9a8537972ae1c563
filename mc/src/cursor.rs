//! C01-C05: explicit-state exploration of the real bit cursor.
//!
//! A state is the cursor's complete internal state (its `Debug` form, without the buffer) together
//! with the model's position. From every reachable state, every operation of the check's alphabet
//! is executed on the real cursor (restored by replaying the shortest path to the state) and
//! compared with the model: a buffer of bits and a position.

use std::collections::VecDeque;
use std::fmt;
use std::io::{Seek, SeekFrom};

use llvm_bitcursor::BitCursor;

use crate::bits::{bits, boundary_values, hex, signed, vbr, BitWriter, Vbr};
use crate::runner::{hash, Ctx, IdSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
}
const TYS: [Ty; 8] = [Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64];

impl Ty {
    fn width(self) -> usize {
        match self {
            Ty::U8 | Ty::I8 => 8,
            Ty::U16 | Ty::I16 => 16,
            Ty::U32 | Ty::I32 => 32,
            Ty::U64 | Ty::I64 => 64,
        }
    }
    fn max(self) -> u64 {
        match self {
            Ty::U8 => u8::MAX as u64,
            Ty::I8 => i8::MAX as u64,
            Ty::U16 => u16::MAX as u64,
            Ty::I16 => i16::MAX as u64,
            Ty::U32 => u32::MAX as u64,
            Ty::I32 => i32::MAX as u64,
            Ty::U64 => u64::MAX,
            Ty::I64 => i64::MAX as u64,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Read(usize),
    ReadAs(Ty, usize),
    Exact(Ty),
    Vbr(usize),
    Svbr(usize),
    Align,
    SeekBit(usize),
    SeekStart(u64),
    SeekEnd(i64),
    SeekCur(i64),
    StreamPos,
}

/// The buffer, with a `Debug` form that doesn't repeat its contents.
pub struct Buf<'a>(pub &'a [u8]);
impl AsRef<[u8]> for Buf<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0
    }
}
impl fmt::Debug for Buf<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("B")
    }
}
type Cur<'a> = BitCursor<Buf<'a>>;

/// Execute an operation on the real cursor.
fn real(c: &mut Cur, op: Op) -> Result<i128, String> {
    fn e<T: fmt::Debug>(e: T) -> String {
        format!("{e:?}")
    }
    fn io(e: std::io::Error) -> String {
        format!("{:?}", e.kind())
    }
    match op {
        Op::Read(n) => c.read(n).map(|v| v as i128).map_err(e),
        Op::ReadAs(t, n) => match t {
            Ty::U8 => c.read_as::<u8>(n).map(|v| v as i128).map_err(e),
            Ty::I8 => c.read_as::<i8>(n).map(|v| v as i128).map_err(e),
            Ty::U16 => c.read_as::<u16>(n).map(|v| v as i128).map_err(e),
            Ty::I16 => c.read_as::<i16>(n).map(|v| v as i128).map_err(e),
            Ty::U32 => c.read_as::<u32>(n).map(|v| v as i128).map_err(e),
            Ty::I32 => c.read_as::<i32>(n).map(|v| v as i128).map_err(e),
            Ty::U64 => c.read_as::<u64>(n).map(|v| v as i128).map_err(e),
            Ty::I64 => c.read_as::<i64>(n).map(|v| v as i128).map_err(e),
        },
        Op::Exact(t) => match t {
            Ty::U8 => c.read_exact::<u8>().map(|v| v as i128).map_err(e),
            Ty::I8 => c.read_exact::<i8>().map(|v| v as i128).map_err(e),
            Ty::U16 => c.read_exact::<u16>().map(|v| v as i128).map_err(e),
            Ty::I16 => c.read_exact::<i16>().map(|v| v as i128).map_err(e),
            Ty::U32 => c.read_exact::<u32>().map(|v| v as i128).map_err(e),
            Ty::I32 => c.read_exact::<i32>().map(|v| v as i128).map_err(e),
            Ty::U64 => c.read_exact::<u64>().map(|v| v as i128).map_err(e),
            Ty::I64 => c.read_exact::<i64>().map(|v| v as i128).map_err(e),
        },
        Op::Vbr(w) => c.read_vbr(w).map(|v| v as i128).map_err(e),
        Op::Svbr(w) => c.read_svbr(w).map(|v| v as i128).map_err(e),
        Op::Align => {
            c.align32();
            Ok(0)
        }
        Op::SeekBit(p) => c.seek_bit(p).map(|_| 0).map_err(e),
        Op::SeekStart(p) => c.seek(SeekFrom::Start(p)).map(|v| v as i128).map_err(io),
        Op::SeekEnd(p) => c.seek(SeekFrom::End(p)).map(|v| v as i128).map_err(io),
        Op::SeekCur(p) => c.seek(SeekFrom::Current(p)).map(|v| v as i128).map_err(io),
        Op::StreamPos => c.stream_position().map(|v| v as i128).map_err(io),
    }
}

enum Want {
    /// The operation succeeds with this result, and moves here.
    Ok(i128, usize),
    /// The operation fails; the position isn't specified afterwards.
    Fail,
    /// The operation fails and leaves the position alone.
    FailInPlace,
    /// Not specified.
    Any,
}

/// The model: what an operation does at position `pos` (if it's known) of `b`.
fn model(b: &[u8], pos: Option<usize>, op: Op) -> Want {
    let end = b.len() * 8;
    let seek = |target: i128| {
        if (0..=b.len() as i128).contains(&target) {
            Want::Ok(target, target as usize * 8)
        } else if pos.is_some() {
            Want::FailInPlace
        } else {
            Want::Fail
        }
    };
    match op {
        Op::SeekBit(p) => {
            return if p <= end { Want::Ok(0, p) } else { Want::Fail };
        }
        Op::SeekStart(p) => return seek(p as i128),
        Op::SeekEnd(p) => return seek(b.len() as i128 + p as i128),
        _ => {}
    }
    let Some(pos) = pos else {
        return Want::Any;
    };
    let fixed = |n: usize, max: u64| {
        if n == 0 || n >= 64 {
            return Want::Fail;
        }
        match bits(b, pos, n) {
            Some(v) if v <= max => Want::Ok(v as i128, pos + n),
            _ => Want::Fail,
        }
    };
    let var = |w: usize, sign: bool| {
        if !(2..=32).contains(&w) {
            return Want::Fail;
        }
        match vbr(b, pos, w) {
            Vbr::Value(v, p) if sign => Want::Ok(signed(v) as i128, p),
            Vbr::Value(v, p) => Want::Ok(v as i128, p),
            Vbr::Unspecified => Want::Any,
            _ => Want::Fail,
        }
    };
    match op {
        Op::Read(n) => fixed(n, u64::MAX),
        Op::ReadAs(t, n) => fixed(n, t.max()),
        Op::Exact(t) => fixed(t.width(), t.max()),
        Op::Vbr(w) => var(w, false),
        Op::Svbr(w) => var(w, true),
        Op::Align => Want::Ok(0, pos.div_ceil(32).saturating_mul(32).min(end)),
        Op::SeekCur(d) => seek(pos as i128 / 8 + d as i128),
        Op::StreamPos => Want::Ok(pos as i128 / 8, pos),
        Op::SeekBit(_) | Op::SeekStart(_) | Op::SeekEnd(_) => unreachable!(),
    }
}

fn check_pos(c: &Cur, b: &[u8], pos: usize) -> Result<(), String> {
    let got = (c.tell_bit(), c.tell_byte(), c.exhausted(), c.byte_len(), c.bit_len());
    let want = (pos, pos / 8, pos == b.len() * 8, b.len(), b.len() * 8);
    if got != want {
        return Err(format!("(tell_bit, tell_byte, exhausted, byte_len, bit_len) is {got:?}, expected {want:?}"));
    }
    Ok(())
}

struct Node {
    parent: usize,
    op: Op,
    pos: Option<usize>,
}

/// Execute `op` in lockstep and compare. Returns the position afterwards, if it's specified.
fn apply(c: &mut Cur, b: &[u8], pos: Option<usize>, op: Op) -> Result<Option<usize>, String> {
    let got = real(c, op);
    let at = || match pos {
        Some(p) => format!("{op:?} at bit {p}"),
        None => format!("{op:?}"),
    };
    match (model(b, pos, op), got) {
        (Want::Any, _) => Ok(None),
        (Want::Ok(v, p), Ok(g)) if g == v => {
            check_pos(c, b, p).map_err(|e| format!("after {}: {e}", at()))?;
            Ok(Some(p))
        }
        (Want::Ok(v, _), g) => Err(format!("{} returned {g:?}, expected {v}", at())),
        (_, Ok(g)) => Err(format!("{} returned {g}, expected an error", at())),
        (Want::Fail, Err(_)) => {
            if c.tell_bit() > b.len() * 8 {
                return Err(format!("after failed {}: position {} is past the end", at(), c.tell_bit()));
            }
            Ok(None)
        }
        (Want::FailInPlace, Err(_)) => {
            let p = pos.unwrap();
            check_pos(c, b, p).map_err(|e| format!("after failed {}: {e}", at()))?;
            Ok(Some(p))
        }
    }
}

fn path(nodes: &[Node], mut i: usize) -> Vec<Op> {
    let mut v = vec![];
    while i != 0 {
        v.push(nodes[i].op);
        i = nodes[i].parent;
    }
    v.reverse();
    v
}

/// Explore every state that's reachable with `ops` on the first `len` bytes of `buf`.
/// The most internal states to follow (breadth first) from one buffer. It's never reached as long as the
/// internal state is a function of position and buffered bits; the bound keeps the check finite when it isn't,
/// e.g. because the cursor also counts something.
fn cap(len: usize) -> usize {
    1000 + 16 * (len * 8 + 1)
}

fn explore(ctx: &Ctx, buf: &[u8], len: usize, ops: &[Op], after_failure: bool) -> Result<(), String> {
    let cap = cap(len);
    let view = &buf[..len];
    let fresh = || -> Cur {
        if len == buf.len() {
            BitCursor::new(Buf(buf))
        } else {
            BitCursor::new_with_len(Buf(buf), len).unwrap()
        }
    };
    let mut nodes = vec![Node { parent: 0, op: Op::Align, pos: Some(0) }];
    let mut seen = IdSet::default();
    let key = |c: &Cur, pos: Option<usize>| hash(&(format!("{c:?}"), pos));
    seen.insert(key(&fresh(), Some(0)));
    check_pos(&fresh(), view, 0).map_err(|e| format!("initially: {e}"))?;
    let mut queue = VecDeque::from([0]);
    while let Some(i) = queue.pop_front() {
        ctx.step();
        ctx.state(&(hash(view), buf.len(), seen.len(), i));
        let p = path(&nodes, i);
        for &op in ops {
            let mut c = fresh();
            for &o in &p {
                let _ = real(&mut c, o);
            }
            ctx.transitions(1);
            ctx.trace();
            let pos = apply(&mut c, view, nodes[i].pos, op).map_err(|e| format!("after {p:?}: {e}"))?;
            if pos.is_none() && !after_failure {
                continue;
            }
            if seen.insert(key(&c, pos)) {
                if nodes.len() >= cap {
                    ctx.count("truncated", 1);
                    continue;
                }
                nodes.push(Node { parent: i, op, pos });
                queue.push_back(nodes.len() - 1);
            }
        }
    }
    Ok(())
}

fn pattern(kind: &str, n: usize) -> Vec<u8> {
    let mut x = 0x2545_f491_4f6c_dd1du64;
    (0..n)
        .map(|i| match kind {
            "zeros" => 0,
            "ones" => 0xff,
            "alternating" => 0xa5,
            "counting" => 0x81u8.wrapping_add((i * 0x11) as u8),
            // High bits set mostly, to get long VBRs.
            "dense" => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 32) as u8 | (x >> 40) as u8
            }
            _ => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 24) as u8
            }
        })
        .collect()
}

fn lengths(ctx: &Ctx) -> Vec<usize> {
    ctx.q(0..=41, 0..=72).collect()
}

fn bit_seeks(len: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..=len * 8 + 140).map(Op::SeekBit).collect();
    v.extend([1 << 20, 1 << 32, usize::MAX >> 3, usize::MAX >> 1, usize::MAX - 64, usize::MAX - 7, usize::MAX].map(Op::SeekBit));
    v
}

fn byte_seeks(len: usize) -> Vec<Op> {
    let n = len as i64;
    let mut v = vec![];
    for i in 0..=n + 10 {
        v.push(Op::SeekStart(i as u64));
    }
    for i in -n - 10..=10 {
        v.push(Op::SeekEnd(i));
    }
    for i in -n - 10..=n + 10 {
        v.push(Op::SeekCur(i));
    }
    for x in [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 1 << 61, (1 << 61) + 1] {
        v.push(Op::SeekStart(x));
    }
    for x in [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 32, -(1 << 32), 1 << 61, -(1 << 61)] {
        v.push(Op::SeekEnd(x));
        v.push(Op::SeekCur(x));
    }
    v.push(Op::StreamPos);
    v
}

fn reads() -> Vec<Op> {
    let mut v: Vec<Op> = (0..=66).map(Op::Read).collect();
    v.extend([100, 127, 128, 129, 192, 256, 1 << 20, usize::MAX - 1, usize::MAX].map(Op::Read));
    v
}

fn typed_reads() -> Vec<Op> {
    let mut v = vec![];
    for t in TYS {
        v.push(Op::Exact(t));
        for n in [0, 1, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65] {
            v.push(Op::ReadAs(t, n));
        }
    }
    v
}

fn vbrs() -> Vec<Op> {
    let mut v = vec![];
    for w in (0..=34).chain([63, 64, 65, 127, 128, usize::MAX]) {
        v.push(Op::Vbr(w));
        v.push(Op::Svbr(w));
    }
    v
}

fn run_explore(ctx: &mut Ctx, kinds: &[&str], lens: &[usize], alphabet: fn(usize) -> Vec<Op>, after_failure: bool) {
    for &len in lens {
        for kind in kinds {
            ctx.case(
                || format!("cursor over {len} bytes, pattern {kind}"),
                |c| {
                    let b = pattern(kind, len);
                    explore(c, &b, len, &alphabet(len), after_failure).map_err(|e| format!("buffer {}: {e}", hex(&b)))
                },
            );
        }
    }
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// A large buffer of zeros. It only takes memory for the pages that are touched.
pub fn zeros() -> &'static mut [u8] {
    const READ_WRITE: i32 = 3;
    const PRIVATE_ANON_NORESERVE: i32 = 0x4022;
    for bytes in [(1usize << 32) + 100, (1 << 29) + 100, (1 << 20) + 100] {
        let p = unsafe { mmap(std::ptr::null_mut(), bytes, READ_WRITE, PRIVATE_ANON_NORESERVE, -1, 0) };
        if p as isize != -1 {
            return unsafe { std::slice::from_raw_parts_mut(p, bytes) };
        }
    }
    &mut []
}

/// A large buffer that's zero except around some boundaries, and the boundaries.
fn sparse() -> (&'static [u8], Vec<usize>) {
    let b = zeros();
    let bytes = b.len();
    let at: Vec<usize> = [8, 13, 16, 20, 24, 28, 29, 31, 32].map(|k| 1usize << k).into_iter().filter(|a| *a < bytes).collect();
    for (i, a) in at.iter().enumerate() {
        let n = pattern("dense", 200 + 8 * i);
        let from = a - 100;
        b[from..from + 200.min(bytes - from)].copy_from_slice(&n[8 * i..][..200.min(bytes - from)]);
    }
    (b, at)
}

/// Positions whose bit or byte number crosses a power of two: every way to get there, then each
/// operation, then each of some others.
fn far(ctx: &mut Ctx, ops: &'static [Op], then: &'static [Op]) {
    let deltas: Vec<i64> = ctx.q(-130..=130, -600..=600).collect();
    for k in 0..9 {
        ctx.case(
            || format!("far positions, boundary {k}"),
            |c| {
                let (b, at) = sparse();
                let Some(&a) = at.get(k) else { return Ok(()) };
                let lens = [b.len(), a + 20, a + 7, a, a - 1];
                for len in lens {
                    let view = &b[..len.min(b.len())];
                    for d in &deltas {
                        let bit = (a as i64 * 8 + d) as usize;
                        let byte = a as i64 + d.div_euclid(8);
                        let firsts = [
                            vec![Op::SeekBit(bit)],
                            vec![Op::SeekStart(byte as u64)],
                            vec![Op::SeekEnd(byte - view.len() as i64)],
                            vec![Op::Read(13), Op::SeekCur(byte - 1)],
                            vec![Op::SeekEnd(0), Op::SeekCur(byte - view.len() as i64)],
                        ];
                        for first in &firsts {
                            c.step();
                            for op in ops {
                                for next in then {
                                    let mut cur: Cur = if view.len() == b.len() {
                                        BitCursor::new(Buf(b))
                                    } else {
                                        BitCursor::new_with_len(Buf(b), view.len()).map_err(|e| format!("limit {len}: {e:?}"))?
                                    };
                                    let mut pos = Some(0);
                                    for o in first.iter().chain([op, next]) {
                                        c.transitions(1);
                                        pos = apply(&mut cur, view, pos, *o).map_err(|e| format!("{len} bytes, {first:?}, {op:?}, {next:?}: {e}"))?;
                                        if pos.is_none() {
                                            break;
                                        }
                                    }
                                    c.trace();
                                }
                            }
                        }
                        c.state(&(k, len, *d));
                    }
                }
                Ok(())
            },
        );
    }
}

/// Words of every small value (and of values around what integers can hold), next to each other,
/// read in several ways: nothing depends on which values are in the buffer.
fn words(ctx: &mut Ctx, tail: &[u8], histories: fn() -> Vec<Vec<Op>>) {
    let mut all: Vec<u64> = (0..ctx.q(300, 5000)).collect();
    all.extend(boundary_values());
    for k in [8, 16, 24, 32, 48, 56] {
        all.extend((0..ctx.q(256, 1024)).map(|v: u64| v << k));
        all.extend((0..256).map(|v: u64| (v << k) ^ u64::MAX));
    }
    all.extend((0..=255).map(|b| u64::from_ne_bytes([b; 8])));
    all.sort_unstable();
    all.dedup();
    let mut few: Vec<u64> = (0..ctx.q(24, 300)).collect();
    few.extend([64, 90, 100, 127, 128, 200, 255, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 63, u32::MAX as u64, u64::MAX, 0xdec0_4342]);
    let tail = tail.to_vec();
    for (part, chunk) in all.chunks(all.len().div_ceil(16)).enumerate() {
        ctx.case(
            || format!("words of small values, part {part}"),
            |c| {
                let histories = histories();
                for &a in chunk {
                    c.step();
                    for &b in &few {
                        for (x, y) in [(a, b), (b, a)] {
                            c.state(&(x, y));
                            let buf = [&x.to_le_bytes()[..], &y.to_le_bytes(), &tail].concat();
                            for h in &histories {
                                let mut cur: Cur = BitCursor::new(Buf(&buf));
                                let mut pos = Some(0);
                                for op in h {
                                    c.transitions(1);
                                    pos = apply(&mut cur, &buf, pos, *op).map_err(|e| format!("{h:?} of {}: {e}", hex(&buf)))?;
                                    if pos.is_none() {
                                        break;
                                    }
                                }
                                c.trace();
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// Buffers of every length (with `hidden` bytes behind a limit): operations near both ends of them.
fn sizes(ctx: &mut Ctx, hidden: &'static [usize], ops: fn(usize) -> Vec<Op>) {
    let mut lens: Vec<usize> = (0..=ctx.q(300, 1100)).collect();
    lens.extend([4095, 4096, 4097, 65535, 65536, 65537]);
    for part in 0..16 {
        let lens: Vec<usize> = lens.iter().copied().filter(|l| l % 16 == part).collect();
        ctx.case(
            || format!("buffers of every length, part {part}"),
            |c| {
                for &len in &lens {
                    let ops = ops(len);
                    let bits = len * 8;
                    let mut starts =
                        vec![vec![], vec![Op::Read(3)], vec![Op::Read(63)], vec![Op::SeekStart(len as u64)], vec![Op::SeekEnd(-1)], vec![Op::SeekEnd(-9), Op::Read(5)]];
                    starts.extend([0, 1, 7, 8, 9, 31, 32, 33, 62, 63, 64, 65].iter().filter(|k| **k <= bits).map(|k| vec![Op::SeekBit(bits - k)]));
                    for &hidden in hidden {
                        let mut buf = pattern("dense", len);
                        buf.extend(pattern("ones", hidden));
                        for start in &starts {
                            c.step();
                            for op in &ops {
                                c.state(&(len, hidden, start.len(), op));
                                let mut cur: Cur = BitCursor::new_with_len(Buf(&buf), len).map_err(|e| format!("limit {len} rejected: {e:?}"))?;
                                let mut pos = Some(0);
                                for op in start.iter().chain([op, &Op::Read(1), &Op::Read(9), &Op::SeekCur(0), &Op::Read(40)]) {
                                    c.transitions(1);
                                    pos = apply(&mut cur, &buf[..len], pos, *op).map_err(|e| format!("{start:?}, {op:?} of a buffer of {len} and {hidden} more bytes: {e}"))?;
                                    if pos.is_none() {
                                        break;
                                    }
                                }
                                c.trace();
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// Seeks to places near the start, the current position, and the end.
fn near(len: usize) -> Vec<Op> {
    let l = len as i64;
    let mut v = vec![];
    for d in -9..=9i64 {
        v.extend([0, 8, 32, l].iter().filter(|b| **b + d >= 0).map(|b| Op::SeekStart((b + d) as u64)));
        v.extend([0, -l].map(|b| Op::SeekEnd(b + d)));
        v.extend([0, l, -l].map(|b| Op::SeekCur(b + d)));
        v.extend([0, 8 * l].iter().filter(|b| **b + d >= 0).map(|b| Op::SeekBit((b + d) as usize)));
    }
    v
}

pub fn c01(ctx: &mut Ctx) {
    sizes(ctx, &[0], |_| (0..=70).map(Op::Read).collect());
    words(ctx, &[1, 2, 3], || {
        use Op::*;
        vec![
            vec![Read(1); 20],
            vec![Read(8), Read(63), Read(63), Read(8)],
            vec![Read(32); 5],
            vec![Read(63), Read(1), Read(63), Read(1), Read(24)],
            vec![Read(5), Read(60), Read(60), Read(7)],
            vec![Exact(Ty::U64), Exact(Ty::U64), Exact(Ty::U8)],
            vec![Exact(Ty::I64), Exact(Ty::I32), Exact(Ty::I16)],
            vec![SeekStart(8), Read(40), Read(40)],
            vec![SeekBit(63), Read(2), Read(62), Read(20)],
            vec![ReadAs(Ty::U16, 12), ReadAs(Ty::I32, 30), ReadAs(Ty::U64, 50), ReadAs(Ty::U8, 7)],
        ]
    });
    far(ctx, &[Op::Read(1), Op::Read(7), Op::Read(31), Op::Read(32), Op::Read(57), Op::Read(63), Op::Exact(Ty::U16)], &[Op::Read(3), Op::Read(33), Op::Read(63)]);
    let lens = lengths(ctx);
    run_explore(
        ctx,
        &["mixed", "dense", "counting"],
        &lens,
        |len| {
            let mut v = reads();
            v.extend(typed_reads());
            v.extend((0..=len * 8).map(Op::SeekBit));
            v.extend((0..=len as u64).map(Op::SeekStart));
            v
        },
        false,
    );
    // Every single bit in isolation, at every position and width.
    for len in ctx.q(vec![9, 17, 33], vec![7, 9, 16, 17, 25, 33, 41]) {
        for set in 0..len * 8 {
            for invert in [false, true] {
                ctx.case(
                    || format!("{len} bytes, bit {set} alone is {}", !invert as u8),
                    |c| {
                        let mut b = vec![if invert { 0xff } else { 0 }; len];
                        b[set / 8] ^= 1 << (set % 8);
                        for pos in 0..=len * 8 {
                            c.step();
                            for n in 1..64 {
                                let mut cur: Cur = BitCursor::new(Buf(&b));
                                let at = apply(&mut cur, &b, Some(0), Op::SeekBit(pos))?;
                                apply(&mut cur, &b, at, Op::Read(n)).map_err(|e| format!("buffer {}: {e}", hex(&b)))?;
                                c.transitions(2);
                            }
                        }
                        c.state(&(len, set, invert));
                        c.trace();
                        Ok(())
                    },
                );
            }
        }
    }
    // Every sequence of read widths, from the start: each width against each prefetch state.
    let depth = 3;
    for first in 1..64usize {
        ctx.case(
            || format!("all sequences of {} reads beginning with {first} bits", depth + 1),
            |c| {
                let b = pattern("mixed", 25);
                let mut widths = vec![first];
                fn go(c: &Ctx, b: &[u8], widths: &mut Vec<usize>, depth: usize) -> Result<(), String> {
                    if depth == 0 {
                        c.step();
                        let mut cur: Cur = BitCursor::new(Buf(b));
                        let mut pos = Some(0);
                        for &w in widths.iter() {
                            c.transitions(1);
                            pos = apply(&mut cur, b, pos, Op::Read(w)).map_err(|e| format!("reads {widths:?} of {}: {e}", hex(b)))?;
                            if pos.is_none() {
                                break;
                            }
                        }
                        c.trace();
                        return Ok(());
                    }
                    for w in 1..64 {
                        widths.push(w);
                        go(c, b, widths, depth - 1)?;
                        widths.pop();
                    }
                    Ok(())
                }
                go(c, &b, &mut widths, depth)
            },
        );
    }
}

pub fn c02(ctx: &mut Ctx) {
    sizes(ctx, &[0], near);
    words(ctx, &[9; 5], || {
        use Op::*;
        vec![
            vec![Read(3), SeekCur(1), Read(9), SeekEnd(-3), Read(9), SeekStart(0), Read(63), StreamPos],
            vec![SeekBit(60), Read(8), SeekBit(1), Read(8), SeekBit(127), Read(2)],
            vec![Read(63), Read(2), SeekCur(-1), Read(8), StreamPos, Read(60)],
            vec![Align, Read(1), Align, Read(33), Align, Read(63), Align, Read(40), Align],
        ]
    });
    far(
        ctx,
        &[
            Op::StreamPos,
            Op::Read(5),
            Op::SeekCur(0),
            Op::SeekCur(-1),
            Op::SeekCur(1),
            Op::SeekCur(-70),
            Op::SeekCur(70),
            Op::SeekCur(1 << 40),
            Op::SeekEnd(-1),
            Op::SeekStart(3),
            Op::SeekBit(77),
        ],
        &[Op::Read(9), Op::SeekCur(2), Op::StreamPos],
    );
    let lens = lengths(ctx);
    run_explore(
        ctx,
        &["mixed", "dense"],
        &lens,
        |len| {
            let mut v: Vec<Op> = [0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 24, 31, 32, 33, 40, 48, 55, 56, 57, 63, 64].map(Op::Read).to_vec();
            v.extend([Op::Vbr(2), Op::Vbr(6), Op::Vbr(32), Op::Vbr(1), Op::Svbr(6), Op::Align]);
            v.extend([Op::Exact(Ty::U8), Op::Exact(Ty::U32), Op::ReadAs(Ty::I8, 8)]);
            v.extend(bit_seeks(len));
            v.extend(byte_seeks(len));
            v
        },
        true,
    );
}

pub fn c03(ctx: &mut Ctx) {
    sizes(ctx, &[0], |_| (1..=33).flat_map(|w| [Op::Vbr(w), Op::Svbr(w)]).collect());
    words(ctx, &[0, 1, 0x80, 0, 0], || {
        let mut v: Vec<Vec<Op>> = [2, 4, 6, 8, 13, 32].map(|w| vec![Op::Vbr(w); 6]).to_vec();
        v.extend([2, 6, 8, 32].map(|w| vec![Op::Read(1), Op::Svbr(w), Op::Svbr(w), Op::Svbr(w)]));
        v
    });
    // Every small value, in every width.
    for w in 2..=32usize {
        ctx.case(
            || format!("every small value in {w}-bit chunks"),
            |c| {
                for v in 0..c.q(3000u64, 140_000) {
                    for v in [v, v << 16, v << 32, !v] {
                        for off in [0, 5, 59] {
                            c.step();
                            let mut o = BitWriter::new();
                            o.put(0, off);
                            o.vbr(v, w);
                            let end = o.len;
                            o.vbr(v, w);
                            let b = o.finish();
                            for op in [Op::Vbr(w), Op::Svbr(w)] {
                                let mut cur: Cur = BitCursor::new(Buf(&b));
                                cur.seek_bit(off).map_err(|e| format!("{e:?}"))?;
                                let want = if op == Op::Svbr(w) { signed(v) as i128 } else { v as i128 };
                                c.transitions(2);
                                c.trace();
                                for at in [end, 2 * end - off] {
                                    let got = real(&mut cur, op);
                                    if got != Ok(want) || cur.tell_bit() != at {
                                        return Err(format!("{op:?} of {v:#x} at bit {off} returned {got:?}, then at bit {} of {at}", cur.tell_bit()));
                                    }
                                }
                            }
                        }
                    }
                    c.state(&(w, v));
                }
                Ok(())
            },
        );
    }
    far(ctx, &[Op::Vbr(2), Op::Vbr(6), Op::Vbr(8), Op::Vbr(32), Op::Svbr(6)], &[Op::Vbr(6), Op::Svbr(4), Op::Read(1)]);
    // From every position and prefetch state, decode whatever bits are there.
    let lens: Vec<usize> = ctx.q(0..=33, 0..=70).collect();
    run_explore(
        ctx,
        &["mixed", "dense", "ones", "zeros", "alternating"],
        &lens,
        |len| {
            let mut v = vbrs();
            v.extend([Op::Read(1), Op::Read(7), Op::Read(63)]);
            v.extend((0..=len * 8).map(Op::SeekBit));
            v
        },
        false,
    );
    // Encodings of boundary values: every width, padding, offset and truncation.
    for w in 2..=32usize {
        for pad in 0..=3usize {
            ctx.case(
                || format!("encodings with {w}-bit chunks and {pad} more chunks than needed"),
                |c| {
                    for v in boundary_values() {
                        let need = (64 - v.leading_zeros() as usize).max(1).div_ceil(w - 1);
                        if pad > 0 && (need + pad) * (w - 1) > 64 {
                            continue;
                        }
                        for off in (0..=9).chain([31, 32, 33, 55, 60, 62, 63, 64, 65]) {
                            c.step();
                            let mut o = BitWriter::new();
                            // What precedes the encoding must not matter.
                            o.put(0xaaaa_aaaa_aaaa_aaaa, off.min(64));
                            o.put(1, off - off.min(64));
                            o.vbr_padded(v, w, pad);
                            let end = o.len;
                            o.put(0x5555, 13);
                            let b = o.finish();
                            for sign in [false, true] {
                                let mut cur: Cur = BitCursor::new(Buf(&b));
                                let at = apply(&mut cur, &b, Some(0), Op::SeekBit(off))?;
                                let op = if sign { Op::Svbr(w) } else { Op::Vbr(w) };
                                // Two independent statements of what's expected: the value that
                                // was encoded, and the model's decoding.
                                let want = if sign { signed(v) as i128 } else { v as i128 };
                                let mut again: Cur = BitCursor::new(Buf(&b));
                                again.seek_bit(off).map_err(|e| format!("{e:?}"))?;
                                let got = real(&mut again, op);
                                if got != Ok(want) || again.tell_bit() != end {
                                    return Err(format!("{op:?} of {v:#x} at bit {off} returned {got:?}, then at bit {} of {end}", again.tell_bit()));
                                }
                                apply(&mut cur, &b, at, op).map_err(|e| format!("{} value {v:#x}: {e}", hex(&b)))?;
                                c.transitions(2);
                                c.trace();
                            }
                            c.state(&(w, pad, v, off));
                            if off % 8 == 1 || off == 63 {
                                for cut in off.div_ceil(8)..b.len() {
                                    let t = &b[..cut];
                                    let mut cur: Cur = BitCursor::new(Buf(t));
                                    let at = apply(&mut cur, t, Some(0), Op::SeekBit(off))?;
                                    apply(&mut cur, t, at, Op::Vbr(w)).map_err(|e| format!("truncated {} value {v:#x}: {e}", hex(t)))?;
                                    c.transitions(2);
                                    c.trace();
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Encodings around the 64-bit limit: every single payload bit beyond and below it.
    for w in 2..=32usize {
        ctx.case(
            || format!("oversized encodings with {w}-bit chunks"),
            |c| {
                let max = 64usize.div_ceil(w - 1) + 2;
                for chunks in 1..=max {
                    for fill in [0u64, 1, (1 << (w - 1)) - 1] {
                        for last in (0..w).map(|i| if i == w - 1 { 0 } else { 1u64 << i }).chain([(1 << (w - 1)) - 1]) {
                            for off in [0, 1, 7, 32, 61] {
                                c.step();
                                let mut o = BitWriter::new();
                                o.put(0, off);
                                for _ in 1..chunks {
                                    o.put(fill | 1 << (w - 1), w);
                                }
                                o.put(last, w);
                                let b = o.finish();
                                for op in [Op::Vbr(w), Op::Svbr(w)] {
                                    let mut cur: Cur = BitCursor::new(Buf(&b));
                                    let at = apply(&mut cur, &b, Some(0), Op::SeekBit(off))?;
                                    apply(&mut cur, &b, at, op).map_err(|e| format!("{}: {e}", hex(&b)))?;
                                    c.transitions(2);
                                    c.trace();
                                }
                                c.state(&(w, chunks, fill, last, off));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

pub fn c04(ctx: &mut Ctx) {
    sizes(ctx, &[0], |_| vec![Op::Align, Op::Read(1), Op::Read(31), Op::Read(33), Op::SeekCur(1), Op::SeekCur(-3)]);
    words(ctx, &[0xff, 0, 7], || {
        use Op::*;
        vec![
            vec![Align, Read(1), Align, Read(8), Align, Read(31), Align, Read(1), Align, Read(1)],
            vec![Read(63), Align, Read(63), Align, Read(20)],
            vec![Read(5), Align, Vbr(6), Align, Vbr(6), Align, Read(2)],
            vec![SeekStart(7), Align, Read(32), SeekStart(9), Align, Read(32)],
        ]
    });
    far(ctx, &[Op::Align, Op::Read(1), Op::Read(32), Op::Vbr(6)], &[Op::Align, Op::Read(32)]);
    let lens: Vec<usize> = ctx.q(0..=44, 0..=90).collect();
    run_explore(
        ctx,
        &["mixed", "dense"],
        &lens,
        |len| {
            let mut v = vec![Op::Align];
            v.extend([1, 2, 3, 4, 7, 8, 9, 16, 24, 30, 31, 32, 33, 40, 56, 62, 63].map(Op::Read));
            v.extend([Op::Vbr(2), Op::Vbr(6), Op::Vbr(8)]);
            v.extend((0..=len * 8).map(Op::SeekBit));
            v.extend((0..=len as u64).map(Op::SeekStart));
            v.push(Op::SeekEnd(0));
            v
        },
        false,
    );
}

/// Explore a limited cursor in lockstep with an unlimited one over the visible bytes.
fn lockstep(ctx: &Ctx, buf: &[u8], len: usize, ops: &[Op]) -> Result<(), String> {
    let cap = cap(len);
    let view = &buf[..len];
    let start = || -> Result<(Cur, Cur), String> { Ok((BitCursor::new_with_len(Buf(buf), len).map_err(|e| format!("limit rejected: {e:?}"))?, BitCursor::new(Buf(view)))) };
    let obs = |c: &Cur| (c.tell_bit(), c.tell_byte(), c.exhausted(), c.byte_len(), c.bit_len());
    let mut paths: Vec<Vec<Op>> = vec![vec![]];
    let mut seen = IdSet::default();
    let (a, b) = start()?;
    if obs(&a) != obs(&b) {
        return Err(format!("initially {:?} vs. {:?}", obs(&a), obs(&b)));
    }
    seen.insert(hash(&format!("{a:?} {b:?}")));
    let mut i = 0;
    while i < paths.len() {
        ctx.step();
        let p = paths[i].clone();
        ctx.state(&(hash(buf), len, i));
        for &op in ops {
            let (mut a, mut b) = start()?;
            for &o in &p {
                let _ = real(&mut a, o);
                let _ = real(&mut b, o);
            }
            let (x, y) = (real(&mut a, op), real(&mut b, op));
            ctx.transitions(2);
            ctx.trace();
            if x != y || obs(&a) != obs(&b) {
                return Err(format!("after {p:?}, {op:?}: limited cursor {x:?} {:?}, cursor over only those bytes {y:?} {:?}", obs(&a), obs(&b)));
            }
            if seen.insert(hash(&format!("{a:?} {b:?}"))) {
                if paths.len() >= cap {
                    ctx.count("truncated", 1);
                    continue;
                }
                let mut q = p.clone();
                q.push(op);
                paths.push(q);
            }
        }
        i += 1;
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    sizes(ctx, &[0, 1, 4, 8, 300], |len| [near(len), (1..=63).step_by(3).map(Op::Read).collect(), vec![Op::Align, Op::Vbr(6), Op::Svbr(32)]].concat());
    far(ctx, &[Op::Read(1), Op::Read(32), Op::Read(63), Op::Vbr(6), Op::Align, Op::SeekEnd(0), Op::SeekCur(9)], &[Op::Read(1), Op::Read(40)]);
    let lens: Vec<usize> = ctx.q(0..=25, 0..=41).collect();
    for &len in &lens {
        for hidden in [1usize, 3, 4, 7, 8, 9, 16] {
            for poison in ["ones", "zeros", "alternating"] {
                if hidden > 1 && poison != "ones" && !ctx.thorough() && hidden != 8 {
                    continue;
                }
                ctx.case(
                    || format!("limit {len}, {hidden} hidden bytes ({poison})"),
                    |c| {
                        let mut buf = pattern("dense", len);
                        buf.extend(pattern(poison, hidden));
                        let mut ops: Vec<Op> = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 56, 62, 63, 0, 64].map(Op::Read).to_vec();
                        ops.extend([2, 3, 6, 8, 17, 32].map(Op::Vbr));
                        ops.extend([2, 6, 32].map(Op::Svbr));
                        ops.push(Op::Align);
                        ops.extend([Op::Exact(Ty::U8), Op::Exact(Ty::U16), Op::Exact(Ty::U32), Op::ReadAs(Ty::I8, 8)]);
                        let top = buf.len() * 8 + 9;
                        ops.extend((0..=top).map(Op::SeekBit));
                        ops.extend((0..=buf.len() as u64 + 1).map(Op::SeekStart));
                        ops.extend((-(buf.len() as i64) - 1..=2).map(Op::SeekEnd));
                        ops.extend((-(buf.len() as i64) - 1..=buf.len() as i64 + 1).map(Op::SeekCur));
                        lockstep(c, &buf, len, &ops).map_err(|e| format!("buffer {}: {e}", hex(&buf)))
                    },
                );
            }
        }
    }
    for len in 0..=ctx.q(300, 1100usize) {
        ctx.case(
            || format!("limits beyond a buffer of {len} bytes"),
            |c| {
                let b = pattern("mixed", len);
                for limit in (0..=len + 17).chain([1 << 16, 1 << 32, usize::MAX / 8, usize::MAX - 1, usize::MAX]) {
                    let got = BitCursor::new_with_len(Buf(&b), limit).is_ok();
                    c.transitions(1);
                    c.state(&(len, limit));
                    if got != (limit <= len) {
                        return Err(format!("limit {limit} over {len} bytes: accepted is {got}"));
                    }
                }
                c.trace();
                Ok(())
            },
        );
    }
}
