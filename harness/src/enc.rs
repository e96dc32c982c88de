//! Independent class-file encoder: `V` -> bytes, with every encoding choice the format leaves open.
use crate::v::*;
use std::collections::HashMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ch {
    /// unused entries put in front of the pool (every kind, wide ones included)
    pub junk: usize,
    pub no_dedup: bool,
    /// 0 in order of use, 1 reversed, 2 rotated by half
    pub perm: u8,
    /// prefer constant-pool loads over short forms, ldc_w over ldc
    pub ldc: u8,
    /// wide forms of local-variable instructions
    pub wide: bool,
    /// goto_w / jsr_w
    pub jump_w: bool,
    /// BootstrapMethods first instead of last
    pub bsm_first: bool,
    /// a StackMapTable in every method (dropped by design on reading)
    pub frames: bool,
    /// one attribute per line number / local variable entry instead of one table
    pub split: bool,
    /// debug attributes after the others instead of before
    pub tables_last: bool,
    /// long forms of everything else (explicit empty BootstrapMethods)
    pub empty_bsm: bool,
    /// one-dimensional arrays through multianewarray
    pub multi1: bool,
    /// unused entries behind the pool up to its greatest size, the last one wide
    pub fill: u8,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum E { U(Vec<u16>), Int(i32), F(u32), J(i64), D(u64), One(u8, usize), Two(u8, usize, usize), Mh(u8, usize), Dy(u8, u16, usize) }
pub fn to_mutf8(s: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for &c in s {
        match c {
            1..=0x7F => o.push(c as u8),
            0 | 0x80..=0x7FF => { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 0x3F) as u8) }
            _ => { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 0x3F) as u8); o.push(0x80 | (c & 0x3F) as u8) }
        }
    }
    o
}
fn p1(o: &mut Vec<u8>, x: i64) { o.push(x as u8) }
fn p2(o: &mut Vec<u8>, x: i64) { o.extend_from_slice(&(x as u16).to_be_bytes()) }
fn p4(o: &mut Vec<u8>, x: i64) { o.extend_from_slice(&(x as u32).to_be_bytes()) }

pub struct Enc<'a> { ch: &'a Ch, ents: Vec<E>, map: HashMap<E, usize>, seq: usize, pass: u8, idx: Vec<u16>, bsms: Vec<V> }
impl<'a> Enc<'a> {
    fn add(&mut self, e: E) -> usize {
        if !self.ch.no_dedup { if let Some(i) = self.map.get(&e) { return *i } }
        if self.pass == 1 { let i = self.ents.len(); self.ents.push(e.clone()); self.map.insert(e, i); i } else { let i = self.seq; self.seq += 1; assert_eq!(self.ents[i], e); i }
    }
    fn ix(&self, id: usize) -> i64 { if self.pass == 1 { 1 } else { self.idx[id] as i64 } }
    fn u(&mut self, v: &V) -> usize { self.add(E::U(v.st().clone())) }
    fn one(&mut self, tag: u8, v: &V) -> usize { let u = self.u(v); self.add(E::One(tag, u)) }
    fn nt(&mut self, a: &V, b: &V) -> usize { let a = self.u(a); let b = self.u(b); self.add(E::Two(12, a, b)) }
    fn member(&mut self, v: &V) -> usize {
        let t = match v.name() { "field" => 9, "method" => 10, "imethod" => 11, x => panic!("member {x}") };
        let c = self.one(7, v.at(0)); let n = self.nt(v.at(1), v.at(2)); self.add(E::Two(t, c, n))
    }
    fn mh(&mut self, v: &V) -> usize { let m = self.member(v.at(1)); self.add(E::Mh(v.at(0).i() as u8, m)) }
    fn dynamic(&mut self, v: &V, indy: bool) -> usize {
        let b = v.at(2);
        let pos = if self.ch.no_dedup { None } else { self.bsms.iter().position(|x| x == b) };
        let i = pos.unwrap_or_else(|| { self.bsms.push(b.clone()); self.bsms.len() - 1 });
        let n = self.nt(v.at(0), v.at(1));
        self.add(E::Dy(if indy { 18 } else { 17 }, i as u16, n))
    }
    fn konst(&mut self, v: &V) -> usize {
        match v.name() {
            "int" => self.add(E::Int(v.at(0).i() as i32)), "float" => self.add(E::F(v.at(0).i() as u32)),
            "long" => self.add(E::J(v.at(0).i())), "double" => self.add(E::D(v.at(0).i() as u64)),
            "string" => self.one(8, v.at(0)), "cls" => self.one(7, v.at(0)), "mtype" => self.one(16, v.at(0)),
            "mh" => self.mh(v), "dyn" => self.dynamic(v, false),
            _ => self.member(v),
        }
    }
    fn c_or_dyn(&mut self, v: &V) -> usize { if v.name() == "dyn" { self.dynamic(v, false) } else { self.one(7, v) } }
    fn m_or_dyn(&mut self, v: &V) -> usize { if v.name() == "dyn" { self.dynamic(v, false) } else { self.member(v) } }
    fn pu(&mut self, o: &mut Vec<u8>, v: &V) { let i = self.u(v); p2(o, self.ix(i)) }
    fn pou(&mut self, o: &mut Vec<u8>, v: &V) { if v.name() == "none" { p2(o, 0) } else { self.pu(o, v) } }
    fn pone(&mut self, o: &mut Vec<u8>, t: u8, v: &V) { let i = self.one(t, v); p2(o, self.ix(i)) }
    fn poc(&mut self, o: &mut Vec<u8>, v: &V) { if v.name() == "none" { p2(o, 0) } else { self.pone(o, 7, v) } }
    fn lst(&mut self, o: &mut Vec<u8>, t: u8, v: &V) { p2(o, v.l().len() as i64); for x in v.l() { self.pone(o, t, x) } }
    fn attr(&mut self, o: &mut Vec<u8>, name: &str, d: Vec<u8>) { self.pu(o, &s(name)); p4(o, d.len() as i64); o.extend(d) }

    fn pairs(&mut self, o: &mut Vec<u8>, v: &V) { p2(o, v.l().len() as i64); for x in v.l() { self.pu(o, x.at(0)); self.element(o, x.at(1)) } }
    fn ann(&mut self, o: &mut Vec<u8>, v: &V) { self.pu(o, v.at(0)); self.pairs(o, v.at(1)) }
    fn anns(&mut self, o: &mut Vec<u8>, v: &V) { p2(o, v.l().len() as i64); for x in v.l() { self.ann(o, x) } }
    pub fn element(&mut self, o: &mut Vec<u8>, v: &V) {
        let t = v.at(0).i() as u8; o.push(t);
        match t {
            b'B' | b'C' | b'S' | b'Z' | b'I' => { let i = self.add(E::Int(v.at(1).i() as i32)); p2(o, self.ix(i)) }
            b'D' => { let i = self.add(E::D(v.at(1).i() as u64)); p2(o, self.ix(i)) }
            b'F' => { let i = self.add(E::F(v.at(1).i() as u32)); p2(o, self.ix(i)) }
            b'J' => { let i = self.add(E::J(v.at(1).i())); p2(o, self.ix(i)) }
            b's' | b'c' => self.pu(o, v.at(1)),
            b'e' => { self.pu(o, v.at(1)); self.pu(o, v.at(2)) }
            b'@' => self.ann(o, v.at(1)),
            b'[' => { p2(o, v.at(1).l().len() as i64); for x in v.at(1).l() { self.element(o, x) } }
            _ => panic!("element"),
        }
    }
    fn tann(&mut self, o: &mut Vec<u8>, v: &V, pcs: &[u32], hs: &[V]) {
        let t = v.at(0); let k = t.at(0).i(); p1(o, k);
        match k {
            0x00 | 0x01 | 0x16 => p1(o, t.at(1).i()),
            0x10 | 0x17 => p2(o, t.at(1).i()),
            0x11 | 0x12 => { p1(o, t.at(1).i()); p1(o, t.at(2).i()) }
            0x13..=0x15 => {}
            0x40 | 0x41 => { p2(o, t.at(1).l().len() as i64); for x in t.at(1).l() { let a = pcs[x.at(0).i() as usize] as i64; let b = pcs[x.at(1).i() as usize] as i64; p2(o, a); p2(o, b - a); p2(o, x.at(2).i()) } }
            0x42 => p2(o, hs.iter().position(|h| h == t.at(1)).expect("catch") as i64),
            0x43..=0x46 => p2(o, pcs[t.at(1).i() as usize] as i64),
            0x47..=0x4B => { p2(o, pcs[t.at(1).i() as usize] as i64); p1(o, t.at(2).i()) }
            _ => panic!("target"),
        }
        p1(o, v.at(1).l().len() as i64);
        for x in v.at(1).l() { p1(o, x.at(0).i()); p1(o, x.at(1).i()) }
        self.pu(o, v.at(2)); self.pairs(o, v.at(3));
    }
    fn any_attr(&mut self, o: &mut Vec<u8>, a: &V) {
        let mut d = vec![];
        let nm = match a.name() {
            "raw" => { self.pu(o, a.at(0)); let V::B(b) = a.at(1) else { panic!() }; p4(o, b.len() as i64); o.extend_from_slice(b); return }
            "Signature" | "SourceFile" => { self.pu(&mut d, a.at(0)); a.name() }
            "Synthetic" | "Deprecated" => a.name(),
            "InnerClasses" => { p2(&mut d, a.at(0).l().len() as i64); for x in a.at(0).l() { self.pone(&mut d, 7, x.at(0)); self.poc(&mut d, x.at(1)); self.pou(&mut d, x.at(2)); p2(&mut d, x.at(3).i()) } a.name() }
            "EnclosingMethod" => { self.pone(&mut d, 7, a.at(0)); if a.at(1).name() == "none" { p2(&mut d, 0) } else { let i = self.nt(a.at(1).at(0), a.at(1).at(1)); p2(&mut d, self.ix(i)) } a.name() }
            "SourceDebugExtension" => { d = to_mutf8(a.at(0).st()); a.name() }
            "Module" => {
                self.pone(&mut d, 19, a.at(0)); p2(&mut d, a.at(1).i()); self.pou(&mut d, a.at(2));
                p2(&mut d, a.at(3).l().len() as i64); for x in a.at(3).l() { self.pone(&mut d, 19, x.at(0)); p2(&mut d, x.at(1).i()); self.pou(&mut d, x.at(2)) }
                for k in [4, 5] { p2(&mut d, a.at(k).l().len() as i64); for x in a.at(k).l() { self.pone(&mut d, 20, x.at(0)); p2(&mut d, x.at(1).i()); self.lst(&mut d, 19, x.at(2)) } }
                self.lst(&mut d, 7, a.at(6));
                p2(&mut d, a.at(7).l().len() as i64); for x in a.at(7).l() { self.pone(&mut d, 7, x.at(0)); self.lst(&mut d, 7, x.at(1)) }
                a.name()
            }
            "ModulePackages" => { self.lst(&mut d, 20, a.at(0)); a.name() }
            "NestMembers" | "Exceptions" => { self.lst(&mut d, 7, a.at(0)); a.name() }
            "ModuleMainClass" | "NestHost" => { self.pone(&mut d, 7, a.at(0)); a.name() }
            "ConstantValue" => { let i = self.konst(a.at(0)); p2(&mut d, self.ix(i)); a.name() }
            "RVA" => { self.anns(&mut d, a.at(0)); "RuntimeVisibleAnnotations" }
            "RIA" => { self.anns(&mut d, a.at(0)); "RuntimeInvisibleAnnotations" }
            "RVTA" | "RITA" => { p2(&mut d, a.at(0).l().len() as i64); for x in a.at(0).l() { self.tann(&mut d, x, &[], &[]) } if a.name() == "RVTA" { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" } }
            "RVPA" | "RIPA" => { p1(&mut d, a.at(0).l().len() as i64); for x in a.at(0).l() { self.anns(&mut d, x) } if a.name() == "RVPA" { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" } }
            "AnnotationDefault" => { self.element(&mut d, a.at(0)); a.name() }
            "MethodParameters" => { p1(&mut d, a.at(0).l().len() as i64); for x in a.at(0).l() { self.pou(&mut d, x.at(0)); p2(&mut d, x.at(1).i()) } a.name() }
            "code" => { d = self.code(a); "Code" }
            x => panic!("attr {x}"),
        };
        self.attr(o, nm, d);
    }
    fn insn(&mut self, o: &mut Vec<u8>, v: &V, pc: u32, pcs: &[u32]) {
        let w = self.ch.wide;
        let rel = |t: &V| pcs[t.i() as usize] as i64 - pc as i64;
        let base = o.len();
        match v.name() {
            "op" => p1(o, v.at(0).i()),
            "push" => {
                let c = v.at(0);
                let x = if matches!(c.name(), "int" | "long" | "float" | "double") { c.at(0).i() } else { 0 };
                let short = self.ch.ldc == 0;
                match c.name() {
                    "int" if short && (-1..=5).contains(&x) => return p1(o, 3 + x),
                    "int" if self.ch.ldc <= 1 && (-128..=127).contains(&x) => { p1(o, 16); return p1(o, x) }
                    "int" if self.ch.ldc <= 2 && (-32768..=32767).contains(&x) => { p1(o, 17); return p2(o, x) }
                    "long" if short && (0..=1).contains(&x) => return p1(o, 9 + x),
                    "float" if short => { for k in 0..3 { if x == (k as f32).to_bits() as i64 { return p1(o, 11 + k) } } }
                    "double" if short => { for k in 0..2 { if x == (k as f64).to_bits() as i64 { return p1(o, 14 + k) } } }
                    _ => {}
                }
                let i = self.konst(c); let i = self.ix(i);
                let wide = matches!(c.name(), "long" | "double") || (c.name() == "dyn" && (*c.at(1) == s("J") || *c.at(1) == s("D")));
                if wide { p1(o, 20); p2(o, i) } else if i > 255 || self.ch.ldc == 4 { p1(o, 19); p2(o, i) } else { p1(o, 18); p1(o, i) }
            }
            n @ ("load" | "store") => {
                let (t, i) = (v.at(0).i(), v.at(1).i());
                let b0 = if n == "load" { 21 } else { 54 };
                if w || i > 255 { p1(o, 196); p1(o, b0 + t); p2(o, i) }
                else if i < 4 && self.ch.ldc == 0 { p1(o, if n == "load" { 26 } else { 59 } + 4 * t + i) }
                else { p1(o, b0 + t); p1(o, i) }
            }
            "iinc" => { let (i, x) = (v.at(0).i(), v.at(1).i()); if w || i > 255 || !(-128..=127).contains(&x) { p1(o, 196); p1(o, 132); p2(o, i); p2(o, x) } else { p1(o, 132); p1(o, i); p1(o, x) } }
            "ret" => { let i = v.at(0).i(); if w || i > 255 { p1(o, 196); p1(o, 169); p2(o, i) } else { p1(o, 169); p1(o, i) } }
            "jmp" => { let op = v.at(0).i(); let d = rel(v.at(1)); if op == 167 && self.ch.jump_w { p1(o, 200); p4(o, d) } else { p1(o, op); p2(o, d) } }
            "jsr" => { let d = rel(v.at(0)); if self.ch.jump_w { p1(o, 201); p4(o, d) } else { p1(o, 168); p2(o, d) } }
            "tsw" => { p1(o, 170); while (pc as usize + o.len() - base) % 4 != 0 { o.push(0) } p4(o, rel(v.at(0))); p4(o, v.at(1).i()); p4(o, v.at(1).i() + v.at(2).l().len() as i64 - 1); for t in v.at(2).l() { p4(o, rel(t)) } }
            "lsw" => { p1(o, 171); while (pc as usize + o.len() - base) % 4 != 0 { o.push(0) } p4(o, rel(v.at(0))); p4(o, v.at(1).l().len() as i64); for t in v.at(1).l() { p4(o, t.at(0).i()); p4(o, rel(t.at(1))) } }
            "ref" => { let m = self.m_or_dyn(v.at(1)); p1(o, v.at(0).i()); p2(o, self.ix(m)) }
            "itf" => { let m = self.m_or_dyn(v.at(0)); p1(o, 185); p2(o, self.ix(m)); p1(o, v.at(1).i()); p1(o, 0) }
            "indy" => { let d = self.dynamic(v.at(0), true); p1(o, 186); p2(o, self.ix(d)); p2(o, 0) }
            "new" => { let c = self.c_or_dyn(v.at(0)); p1(o, 187); p2(o, self.ix(c)) }
            "cast" => { let c = self.c_or_dyn(v.at(1)); p1(o, v.at(0).i()); p2(o, self.ix(c)) }
            "newarr" => {
                if let S(d) = v.at(0) {
                    let prim = if d.len() == 1 { "ZCFDBSIJ".find(d[0] as u8 as char) } else { None };
                    if self.ch.multi1 { let mut c = vec!['[' as u16]; c.extend(d); let c = self.one(7, &S(c)); p1(o, 197); p2(o, self.ix(c)); p1(o, 1) }
                    else if let Some(k) = prim { p1(o, 188); p1(o, 4 + k as i64) }
                    else { let c = if d[0] == 'L' as u16 { d[1..d.len() - 1].to_vec() } else { d.clone() }; let c = self.one(7, &S(c)); p1(o, 189); p2(o, self.ix(c)) }
                } else { let c = self.dynamic(v.at(0), false); p1(o, 189); p2(o, self.ix(c)) }
            }
            "multi" => { let c = self.c_or_dyn(v.at(0)); p1(o, 197); p2(o, self.ix(c)); p1(o, v.at(1).i()) }
            x => panic!("insn {x}"),
        }
    }
    fn code(&mut self, a: &V) -> Vec<u8> {
        let mut o = vec![];
        p2(&mut o, a.at(0).i()); p2(&mut o, a.at(1).i());
        let ins = a.at(2).l();
        // sizes depend on pc only; lay out with dummy targets (no new pool entries may be recorded twice)
        let save = self.seq; let (en, mp, bs) = (self.ents.clone(), self.map.clone(), self.bsms.clone());
        let mut pcs = vec![0u32];
        let dummy = vec![0u32; ins.len() + 1];
        for i in ins { let mut b = vec![]; let pc = *pcs.last().unwrap(); self.insn(&mut b, i, pc, &dummy); pcs.push(pc + b.len() as u32) }
        self.seq = save; self.ents = en; self.map = mp; self.bsms = bs;
        let mut c = vec![];
        for (k, i) in ins.iter().enumerate() { let pc = c.len() as u32; debug_assert_eq!(pc, pcs[k]); self.insn(&mut c, i, pc, &pcs) }
        p4(&mut o, c.len() as i64); o.extend(c);
        let hs = a.at(3).l().clone();
        p2(&mut o, hs.len() as i64);
        for h in &hs { for k in 0..3 { p2(&mut o, pcs[h.at(k).i() as usize] as i64) } self.poc(&mut o, h.at(3)) }
        let mut n = 0;
        let mut tables = vec![]; let mut others = vec![];
        if self.ch.frames { let mut d = vec![]; p2(&mut d, 2); p1(&mut d, 0); p1(&mut d, 255); p2(&mut d, 0); p2(&mut d, 2); p1(&mut d, 7); self.pone(&mut d, 7, &s("X")); p1(&mut d, 8); p2(&mut d, 0); p2(&mut d, 1); p1(&mut d, 4); self.attr(&mut tables, "StackMapTable", d); n += 1 }
        for (k, nm) in [(4, "LineNumberTable"), (5, "LocalVariableTable"), (6, "LocalVariableTypeTable")] {
            let l = a.at(k).l();
            if l.is_empty() { continue }
            for part in l.chunks(if self.ch.split { 1 } else { l.len() }) {
                let mut d = vec![]; p2(&mut d, part.len() as i64);
                for e in part {
                    let st = pcs[e.at(0).i() as usize] as i64; p2(&mut d, st);
                    if k == 4 { p2(&mut d, e.at(1).i()) } else { p2(&mut d, pcs[e.at(1).i() as usize] as i64 - st); self.pu(&mut d, e.at(2)); self.pu(&mut d, e.at(3)); p2(&mut d, e.at(4).i()) }
                }
                self.attr(&mut tables, nm, d); n += 1;
            }
        }
        for x in a.at(7).l() {
            n += 1;
            if x.name() == "raw" { self.any_attr(&mut others, x) } else {
                let mut d = vec![]; p2(&mut d, x.at(0).l().len() as i64);
                for t in x.at(0).l() { self.tann(&mut d, t, &pcs, &hs) }
                self.attr(&mut others, if x.name() == "RVTA" { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, d);
            }
        }
        p2(&mut o, n);
        if self.ch.tables_last { o.extend(others); o.extend(tables) } else { o.extend(tables); o.extend(others) }
        o
    }
    fn body(&mut self, c: &V) -> Vec<u8> {
        let mut o = vec![];
        p2(&mut o, c.at(2).i()); self.pone(&mut o, 7, c.at(3)); self.poc(&mut o, c.at(4)); self.lst(&mut o, 7, c.at(5));
        for k in [6, 7] {
            p2(&mut o, c.at(k).l().len() as i64);
            for m in c.at(k).l() {
                p2(&mut o, m.at(0).i()); self.pu(&mut o, m.at(1)); self.pu(&mut o, m.at(2));
                p2(&mut o, m.at(3).l().len() as i64); for a in m.at(3).l() { self.any_attr(&mut o, a) }
            }
        }
        let mut at = vec![]; for a in c.at(8).l() { self.any_attr(&mut at, a) }
        let mut b = vec![]; let mut bn = 0;
        if !self.bsms.is_empty() || self.ch.empty_bsm {
            let mut d = vec![]; let mut k = 0;
            while k < self.bsms.len() {
                let x = self.bsms[k].clone();
                let h = self.mh(x.at(0)); p2(&mut d, self.ix(h));
                p2(&mut d, x.at(1).l().len() as i64); for y in x.at(1).l() { let i = self.konst(y); p2(&mut d, self.ix(i)) }
                k += 1;
            }
            let mut dd = vec![]; p2(&mut dd, k as i64); dd.extend(d);
            self.attr(&mut b, "BootstrapMethods", dd); bn = 1;
        }
        p2(&mut o, c.at(8).l().len() as i64 + bn);
        if self.ch.bsm_first { o.extend(b); o.extend(at) } else { o.extend(at); o.extend(b) }
        o
    }
}
/// A bootstrap method nothing refers to, in padded files.
fn spare(ch: &Ch) -> Vec<V> {
    if ch.junk == 0 || ch.empty_bsm { return vec![] }
    vec![N("bsm", vec![N("mh", vec![I(6), N("method", vec![s("Sp"), s("are"), s("()V")])]), L(vec![N("string", vec![s("spare")]), N("int", vec![I(9)])])])]
}
pub fn encode(c: &V, ch: &Ch) -> Vec<u8> {
    let mut e = Enc { ch, ents: vec![], map: HashMap::new(), seq: 0, pass: 1, idx: vec![], bsms: spare(ch) };
    e.body(c);
    // number the pool
    let n = e.ents.len();
    let order: Vec<usize> = match ch.perm { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).map(|i| (i + n / 2) % n).collect() };
    let mut pool = vec![]; let mut next = 1u32;
    let junk: [&[u8]; 6] = [&[1, 0, 2, b'z', b'z'], &[5, 1, 2, 3, 4, 5, 6, 7, 8], &[3, 9, 9, 9, 9], &[6, 0x7f, 0xf8, 0, 0, 0, 0, 0, 1], &[4, 0x7f, 0xc0, 0, 1], &[1, 0, 0]];
    for k in 0..ch.junk { let j = junk[k % 6]; pool.extend_from_slice(j); next += if j[0] == 5 || j[0] == 6 { 2 } else { 1 } }
    let size = |e: &E| if matches!(e, E::J(_) | E::D(_)) { 2 } else { 1 };
    if ch.fill == 3 { let used: u32 = e.ents.iter().map(size).sum(); while next + used < 65535 { pool.extend_from_slice(&[3, 0, 0, 0, 1]); next += 1 } }
    let mut idx = vec![0u16; n];
    for &i in &order { idx[i] = next as u16; next += size(&e.ents[i]) }
    assert!(next <= 65535);
    for &i in &order {
        match &e.ents[i] {
            E::U(s) => { let b = to_mutf8(s); pool.push(1); p2(&mut pool, b.len() as i64); pool.extend(b) }
            E::Int(x) => { pool.push(3); p4(&mut pool, *x as i64) } E::F(x) => { pool.push(4); p4(&mut pool, *x as i64) }
            E::J(x) => { pool.push(5); pool.extend_from_slice(&x.to_be_bytes()) } E::D(x) => { pool.push(6); pool.extend_from_slice(&x.to_be_bytes()) }
            E::One(t, a) => { pool.push(*t); p2(&mut pool, idx[*a] as i64) }
            E::Two(t, a, b) => { pool.push(*t); p2(&mut pool, idx[*a] as i64); p2(&mut pool, idx[*b] as i64) }
            E::Mh(k, a) => { pool.push(15); pool.push(*k); p2(&mut pool, idx[*a] as i64) }
            E::Dy(t, b, a) => { pool.push(*t); p2(&mut pool, *b as i64); p2(&mut pool, idx[*a] as i64) }
        }
    }
    if ch.fill == 2 { while next < 65535 { pool.extend_from_slice(&[3, 0, 0, 0, 1]); next += 1 } }
    if ch.fill == 1 { while next < 65533 { pool.extend_from_slice(&[3, 0, 0, 0, 1]); next += 1 } pool.extend_from_slice(&[5, 0, 0, 0, 0, 0, 0, 0, 1]); next += 2 }
    e.idx = idx; e.pass = 2; e.seq = 0; e.bsms = spare(ch);
    if ch.no_dedup { e.map.clear() }
    let body = e.body(c);
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE];
    p2(&mut o, c.at(0).i()); p2(&mut o, c.at(1).i()); p2(&mut o, next as i64);
    o.extend(pool); o.extend(body);
    o
}
