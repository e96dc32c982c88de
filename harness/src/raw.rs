//! Byte-level assembler for hand-made class files (independent of coffer).
use std::collections::HashMap;
#[derive(Clone, Default)]
pub struct RawPool { pub b: Vec<u8>, pub n: u16, map: HashMap<Vec<u8>, u16> }
pub fn u2(x: u16) -> [u8; 2] { x.to_be_bytes() }
pub fn u4(x: u32) -> [u8; 4] { x.to_be_bytes() }
impl RawPool {
    pub fn new() -> Self { RawPool { n: 1, ..Default::default() } }
    pub fn add(&mut self, tag: u8, body: &[u8]) -> u16 {
        let mut e = vec![tag]; e.extend_from_slice(body);
        if let Some(i) = self.map.get(&e) { return *i }
        let i = self.n; self.b.extend_from_slice(&e); self.map.insert(e, i);
        self.n += if tag == 5 || tag == 6 { 2 } else { 1 };
        i
    }
    pub fn utf(&mut self, s: &str) -> u16 { self.utf_b(&crate::enc::to_mutf8(&s.encode_utf16().collect::<Vec<_>>())) }
    pub fn utf_b(&mut self, s: &[u8]) -> u16 { let mut b = u2(s.len() as u16).to_vec(); b.extend_from_slice(s); self.add(1, &b) }
    pub fn one(&mut self, tag: u8, s: &str) -> u16 { let u = self.utf(s); self.add(tag, &u2(u)) }
    pub fn class(&mut self, s: &str) -> u16 { self.one(7, s) }
    pub fn two(&mut self, tag: u8, a: u16, b: u16) -> u16 { let mut v = u2(a).to_vec(); v.extend(u2(b)); self.add(tag, &v) }
    pub fn nt(&mut self, n: &str, d: &str) -> u16 { let a = self.utf(n); let b = self.utf(d); self.two(12, a, b) }
    pub fn member(&mut self, tag: u8, o: &str, n: &str, d: &str) -> u16 { let c = self.class(o); let t = self.nt(n, d); self.two(tag, c, t) }
    pub fn mh(&mut self, kind: u8, m: u16) -> u16 { let mut v = vec![kind]; v.extend(u2(m)); self.add(15, &v) }
    pub fn bytes(&self) -> Vec<u8> { let mut v = u2(self.n).to_vec(); v.extend_from_slice(&self.b); v }
}
pub fn attr(p: &mut RawPool, name: &str, body: &[u8]) -> Vec<u8> { let mut v = u2(p.utf(name)).to_vec(); v.extend(u4(body.len() as u32)); v.extend_from_slice(body); v }
/// Body of a Code attribute.
pub fn code_body(code: &[u8], handlers: &[[u16; 4]], attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![0, 2, 0, 3]; v.extend(u4(code.len() as u32)); v.extend_from_slice(code);
    v.extend(u2(handlers.len() as u16)); for h in handlers { for x in h { v.extend(u2(*x)) } }
    v.extend(u2(attrs.len() as u16)); for a in attrs { v.extend_from_slice(a) }
    v
}
/// Class "A" extends "O", version 55, with the given already framed attributes.
pub fn class_file(mut p: RawPool, field_attrs: Option<&[Vec<u8>]>, method_attrs: Option<&[Vec<u8>]>, class_attrs: &[Vec<u8>]) -> Vec<u8> {
    let (a, o) = (p.class("A"), p.class("O"));
    let mut r = vec![0u8, 0x21]; r.extend(u2(a)); r.extend(u2(o)); r.extend([0, 0]);
    for (at, n, d) in [(field_attrs, "f", "I"), (method_attrs, "m", "()V")] {
        match at { None => r.extend([0, 0]), Some(at) => { r.extend([0, 1, 0, 1]); r.extend(u2(p.utf(n))); r.extend(u2(p.utf(d))); r.extend(u2(at.len() as u16)); for x in at { r.extend_from_slice(x) } } }
    }
    r.extend(u2(class_attrs.len() as u16)); for x in class_attrs { r.extend_from_slice(x) }
    let mut v = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 55]; v.extend(p.bytes()); v.extend(r); v
}
/// Class with one method whose Code attribute has these parts.
pub fn with_code(mut p: RawPool, code: &[u8], handlers: &[[u16; 4]], attrs: &[(&str, Vec<u8>)], class_attrs: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let at: Vec<Vec<u8>> = attrs.iter().map(|(n, b)| attr(&mut p, n, b)).collect();
    let ca: Vec<Vec<u8>> = class_attrs.iter().map(|(n, b)| attr(&mut p, n, b)).collect();
    let c = attr(&mut p, "Code", &code_body(code, handlers, &at));
    class_file(p, None, Some(&[c]), &ca)
}
