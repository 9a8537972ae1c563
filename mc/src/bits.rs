//! The reference view of a bit sequence, and a writer for it.

/// Bit `i` of `b`, least significant bit of each byte first.
pub fn bit(b: &[u8], i: usize) -> u64 {
    ((b[i / 8] >> (i % 8)) & 1) as u64
}

/// The `n` bits of `b` from `pos` on, if there are that many.
pub fn bits(b: &[u8], pos: usize, n: usize) -> Option<u64> {
    if n > 64 || pos.checked_add(n)? > b.len() * 8 {
        return None;
    }
    let mut v = 0;
    for i in 0..n {
        v |= bit(b, pos + i) << i;
    }
    Some(v)
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Vbr {
    /// The value, and the position behind it.
    Value(u64, usize),
    /// The encoding runs off the end.
    Short,
    /// There's more than 64 bits of payload.
    Overflow,
    /// Chunks beyond 64 bits of payload, but all of them zero.
    Unspecified,
}

/// Decode a VBR with the given chunk width.
pub fn vbr(b: &[u8], mut pos: usize, width: usize) -> Vbr {
    let mut v: u128 = 0;
    let mut shift = 0;
    let mut beyond = false;
    loop {
        let Some(chunk) = bits(b, pos, width) else {
            return Vbr::Short;
        };
        pos += width;
        let payload = chunk & ((1 << (width - 1)) - 1);
        if shift >= 64 {
            if payload != 0 {
                return Vbr::Overflow;
            }
            beyond = true;
        } else {
            v |= (payload as u128) << shift;
            if v >> 64 != 0 {
                return Vbr::Overflow;
            }
        }
        if chunk >> (width - 1) == 0 {
            break;
        }
        shift += width - 1;
    }
    if beyond {
        Vbr::Unspecified
    } else {
        Vbr::Value(v as u64, pos)
    }
}

/// The value of a signed VBR that decodes to `v`.
pub fn signed(v: u64) -> i64 {
    if v == 1 {
        i64::MIN
    } else if v & 1 != 0 {
        -((v >> 1) as i64)
    } else {
        (v >> 1) as i64
    }
}

#[derive(Clone, Default, Debug)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl BitWriter {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.len % 8);
        }
        self.len += 1;
    }

    /// `n` bits of `v`.
    pub fn put(&mut self, v: u64, n: usize) {
        if self.len % 8 == 0 && n % 8 == 0 {
            for i in 0..n / 8 {
                self.bytes.push(if i < 8 { (v >> (i * 8)) as u8 } else { 0 });
            }
            self.len += n;
            return;
        }
        for i in 0..n {
            self.bit(i < 64 && (v >> i) & 1 != 0);
        }
    }

    /// `v` as a VBR with chunks of width `w`.
    pub fn vbr(&mut self, v: u64, w: usize) {
        self.vbr_padded(v, w, 0)
    }

    /// `v` as a VBR with `pad` more chunks than needed.
    pub fn vbr_padded(&mut self, mut v: u64, w: usize, mut pad: usize) {
        let low = (1u64 << (w - 1)) - 1;
        while v > low || pad > 0 {
            if v <= low {
                pad -= 1;
            }
            self.put((v & low) | (1 << (w - 1)), w);
            v = if w > 64 { 0 } else { v >> (w - 1) };
        }
        self.put(v, w);
    }

    pub fn align(&mut self, n: usize) {
        while self.len % n != 0 {
            self.bit(false);
        }
    }

    pub fn align32(&mut self) {
        self.align(32)
    }

    /// Overwrite 32 bits at a byte-aligned position.
    pub fn patch32(&mut self, at: usize, v: u32) {
        assert!(at % 8 == 0);
        self.bytes[at / 8..at / 8 + 4].copy_from_slice(&v.to_le_bytes());
    }

    /// The bytes, padded with zero bits to whole bytes.
    pub fn finish(mut self) -> Vec<u8> {
        self.align(8);
        self.bytes
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Values around the integer boundaries that matter to encoders: 2^k-1, 2^k, 2^k+1.
pub fn boundary_values() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, u64::MAX, u64::MAX - 1, 0xaaaa_aaaa_aaaa_aaaa, 0x5555_5555_5555_5555];
    for k in 1..64 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
