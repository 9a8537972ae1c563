//! A small bitstream writer for the demonstrations.
#![allow(dead_code)]

pub struct W {
    bits: Vec<bool>,
    blocks: Vec<(usize, u64)>,
    width: u64,
}

#[derive(Clone)]
pub enum Op {
    Lit(u64),
    Fixed(u64),
    Vbr(u64),
    Array,
    Char6,
    Blob,
}

impl W {
    pub fn new() -> W {
        let mut w = W { bits: vec![], blocks: vec![], width: 2 };
        w.fixed(0xdec04342, 32);
        w
    }
    pub fn empty() -> W {
        W { bits: vec![], blocks: vec![], width: 2 }
    }
    pub fn fixed(&mut self, v: u64, n: u64) {
        for i in 0..n {
            self.bits.push((v >> i) & 1 == 1);
        }
    }
    pub fn vbr(&mut self, mut v: u64, n: u64) {
        let hi = 1u64 << (n - 1);
        while v >= hi {
            self.fixed((v & (hi - 1)) | hi, n);
            v >>= n - 1;
        }
        self.fixed(v, n);
    }
    pub fn align(&mut self) {
        while self.bits.len() % 32 != 0 {
            self.bits.push(false);
        }
    }
    pub fn id(&mut self, id: u64) {
        let w = self.width;
        self.fixed(id, w);
    }
    pub fn enter(&mut self, block: u64, width: u64) {
        self.id(1);
        self.vbr(block, 8);
        self.vbr(width, 4);
        self.align();
        self.fixed(0, 32);
        self.blocks.push((self.bits.len(), self.width));
        self.width = width;
    }
    pub fn end(&mut self) {
        self.id(0);
        self.align();
        let (start, width) = self.blocks.pop().unwrap();
        let words = ((self.bits.len() - start) / 32) as u64;
        for i in 0..32 {
            self.bits[start - 32 + i] = (words >> i) & 1 == 1;
        }
        self.width = width;
    }
    pub fn rec(&mut self, code: u64, fields: &[u64]) {
        self.id(3);
        self.vbr(code, 6);
        self.vbr(fields.len() as u64, 6);
        for f in fields {
            self.vbr(*f, 6);
        }
    }
    pub fn text(&mut self, code: u64, text: &str) {
        let fields: Vec<u64> = text.bytes().map(u64::from).collect();
        self.rec(code, &fields);
    }
    pub fn define(&mut self, ops: &[Op]) {
        self.id(2);
        self.vbr(ops.len() as u64, 5);
        for op in ops {
            match op {
                Op::Lit(v) => {
                    self.fixed(1, 1);
                    self.vbr(*v, 8);
                }
                Op::Fixed(n) => {
                    self.fixed(0, 1);
                    self.fixed(1, 3);
                    self.vbr(*n, 5);
                }
                Op::Vbr(n) => {
                    self.fixed(0, 1);
                    self.fixed(2, 3);
                    self.vbr(*n, 5);
                }
                Op::Array => {
                    self.fixed(0, 1);
                    self.fixed(3, 3);
                }
                Op::Char6 => {
                    self.fixed(0, 1);
                    self.fixed(4, 3);
                }
                Op::Blob => {
                    self.fixed(0, 1);
                    self.fixed(5, 3);
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn done(mut self) -> Vec<u8> {
        self.align();
        assert!(self.blocks.is_empty());
        self.bits
            .chunks(8)
            .map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b as u8) << i)))
            .collect()
    }

    // Whole pieces of bitcode.
    pub fn ident(&mut self) {
        self.enter(13, 3);
        self.text(1, "LLVM17");
        self.rec(2, &[0]);
        self.end();
    }
    pub fn strtab(&mut self, s: &[u8]) {
        self.enter(23, 3);
        let fields: Vec<u64> = s.iter().map(|b| u64::from(*b)).collect();
        self.rec(1, &fields);
        self.end();
    }
    pub fn symtab(&mut self, s: &[u8]) {
        self.enter(25, 3);
        let fields: Vec<u64> = s.iter().map(|b| u64::from(*b)).collect();
        self.rec(1, &fields);
        self.end();
    }
    pub fn types(&mut self, records: &[(u64, Vec<u64>)]) {
        self.enter(17, 4);
        let n = records.iter().filter(|(c, _)| *c != 19).count() as u64;
        self.rec(1, &[n]);
        for (c, f) in records {
            self.rec(*c, f);
        }
        self.end();
    }
    /// void, a void function, and an opaque pointer.
    pub fn plain_types(&mut self) {
        self.types(&[(2, vec![]), (21, vec![0, 0]), (25, vec![0])]);
    }
    pub fn vst(&mut self) {
        self.enter(14, 4);
        self.end();
    }
    /// A module with the plain types and whatever `f` writes.
    pub fn module(&mut self, f: impl FnOnce(&mut W)) {
        self.enter(8, 3);
        self.rec(1, &[2]);
        f(self);
        self.end();
    }
}

/// A complete bitcode file whose module contains whatever `f` writes, with a string table.
pub fn bitcode(strtab: &[u8], f: impl FnOnce(&mut W)) -> Vec<u8> {
    let mut w = W::new();
    w.ident();
    w.module(f);
    w.strtab(strtab);
    w.done()
}
