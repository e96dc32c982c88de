//! Independent class-file parser (JVMS 4, majors 45..=59): bytes -> `V`.
//! Strict about every index, count and length; nothing here uses coffer.
use crate::v::*;
use std::collections::HashMap;

pub type R<T> = Result<T, String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p { bail!("truncated at {} (+{n})", self.p) }
        let r = &self.b[self.p..self.p + n]; self.p += n; Ok(r)
    }
    pub fn u1(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    pub fn u2(&mut self) -> R<u16> { let b = self.take(2)?; Ok(u16::from_be_bytes([b[0], b[1]])) }
    pub fn u4(&mut self) -> R<u32> { let b = self.take(4)?; Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]])) }
    pub fn u8_(&mut self) -> R<u64> { Ok((self.u4()? as u64) << 32 | self.u4()? as u64) }
    pub fn end(&self) -> R<()> { if self.p == self.b.len() { Ok(()) } else { Err(format!("{} trailing bytes", self.b.len() - self.p)) } }
}

/// Modified UTF-8 per JVMS 4.4.7; Err for anything it does not define.
pub fn mutf8(b: &[u8]) -> R<Vec<u16>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = |k: usize| -> R<u16> { match b.get(k) { Some(&x) if x & 0xC0 == 0x80 => Ok((x & 0x3F) as u16), _ => Err(format!("bad continuation at {k}")) } };
        match b[i] {
            0 => bail!("raw zero byte"),
            x @ 1..=0x7F => { o.push(x as u16); i += 1 }
            x @ 0xC0..=0xDF => {
                let v = ((x & 0x1F) as u16) << 6 | c(i + 1)?;
                if v < 0x80 && v != 0 { bail!("overlong at {i}") }
                o.push(v); i += 2
            }
            x @ 0xE0..=0xEF => {
                let v = ((x & 0x0F) as u16) << 12 | c(i + 1)? << 6 | c(i + 2)?;
                if v < 0x800 { bail!("overlong at {i}") }
                o.push(v); i += 3
            }
            _ => bail!("bad lead byte at {i}"),
        }
    }
    Ok(o)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cp { Gap, Utf8(Vec<u16>), Int(i32), Float(u32), Long(i64), Double(u64), Class(u16), Str(u16), Field(u16, u16), Method(u16, u16), IMethod(u16, u16), Nt(u16, u16), Mh(u8, u16), Mt(u16), Dyn(u16, u16), Indy(u16, u16), Module(u16), Package(u16) }

pub struct Pool { pub e: Vec<Cp>, pub bsm: Vec<(u16, Vec<u16>)>, pub has_bsm: bool }
impl Pool {
    pub fn parse(r: &mut Rd) -> R<Pool> {
        BUDGET.with(|x| x.set(100_000));
        let count = r.u2()? as usize;
        if count == 0 { bail!("constant_pool_count 0") }
        let mut e = vec![Cp::Gap];
        while e.len() < count {
            let t = r.u1()?;
            let c = match t {
                1 => { let l = r.u2()? as usize; Cp::Utf8(mutf8(r.take(l)?)?) }
                3 => Cp::Int(r.u4()? as i32), 4 => Cp::Float(r.u4()?),
                5 => Cp::Long(r.u8_()? as i64), 6 => Cp::Double(r.u8_()?),
                7 => Cp::Class(r.u2()?), 8 => Cp::Str(r.u2()?),
                9 => Cp::Field(r.u2()?, r.u2()?), 10 => Cp::Method(r.u2()?, r.u2()?), 11 => Cp::IMethod(r.u2()?, r.u2()?),
                12 => Cp::Nt(r.u2()?, r.u2()?), 15 => Cp::Mh(r.u1()?, r.u2()?), 16 => Cp::Mt(r.u2()?),
                17 => Cp::Dyn(r.u2()?, r.u2()?), 18 => Cp::Indy(r.u2()?, r.u2()?),
                19 => Cp::Module(r.u2()?), 20 => Cp::Package(r.u2()?),
                _ => bail!("constant tag {t}"),
            };
            let wide = matches!(c, Cp::Long(_) | Cp::Double(_));
            e.push(c);
            if wide { e.push(Cp::Gap) }
        }
        if e.len() != count { bail!("wide constant runs past constant_pool_count") }
        let p = Pool { e, bsm: vec![], has_bsm: false };
        // every entry, used or not, must be internally consistent
        for i in 1..p.e.len() {
            match p.e[i].clone() {
                Cp::Class(u) | Cp::Str(u) | Cp::Module(u) | Cp::Package(u) => { p.utf8(u)?; }
                Cp::Mt(u) => { let d = p.utf8(u)?; if !desc_ok(&d, true) { bail!("MethodType with descriptor {:?}", S(d)) } }
                Cp::Field(c, n) => { p.class(c)?; let (_, d) = p.nt(n)?; if !desc_ok(&d, false) { bail!("Fieldref descriptor {:?}", S(d)) } }
                Cp::Method(c, n) | Cp::IMethod(c, n) => { p.class(c)?; let (_, d) = p.nt(n)?; if !desc_ok(&d, true) { bail!("Methodref descriptor {:?}", S(d)) } }
                Cp::Nt(a, b) => { p.utf8(a)?; let d = p.utf8(b)?; if !desc_ok(&d, true) && !desc_ok(&d, false) { bail!("NameAndType descriptor {:?}", S(d)) } }
                Cp::Mh(k, m) => {
                    let ok = match (k, p.get(m)?) { (1..=4, Cp::Field(..)) => true, (5 | 8, Cp::Method(..)) => true, (6 | 7, Cp::Method(..) | Cp::IMethod(..)) => true, (9, Cp::IMethod(..)) => true, _ => false };
                    if !ok { bail!("MethodHandle kind {k} with {:?}", p.get(m)?) }
                }
                Cp::Dyn(_, n) | Cp::Indy(_, n) => { p.nt(n)?; }
                _ => {}
            }
        }
        Ok(p)
    }
    pub fn get(&self, i: u16) -> R<&Cp> { match self.e.get(i as usize) { None | Some(Cp::Gap) => Err(format!("constant index {i} is not an entry")), Some(c) => Ok(c) } }
    pub fn utf8(&self, i: u16) -> R<Vec<u16>> { match self.get(i)? { Cp::Utf8(s) => Ok(s.clone()), c => Err(format!("constant {i}: Utf8 expected, got {c:?}")) } }
    pub fn s(&self, i: u16) -> R<V> { Ok(S(self.utf8(i)?)) }
    pub fn opt_s(&self, i: u16) -> R<V> { if i == 0 { Ok(none()) } else { self.s(i) } }
    pub fn class(&self, i: u16) -> R<V> { match self.get(i)? { Cp::Class(u) => self.s(*u), c => Err(format!("constant {i}: Class expected, got {c:?}")) } }
    pub fn opt_class(&self, i: u16) -> R<V> { if i == 0 { Ok(none()) } else { self.class(i) } }
    pub fn module(&self, i: u16) -> R<V> { match self.get(i)? { Cp::Module(u) => self.s(*u), c => Err(format!("constant {i}: Module expected, got {c:?}")) } }
    pub fn package(&self, i: u16) -> R<V> { match self.get(i)? { Cp::Package(u) => self.s(*u), c => Err(format!("constant {i}: Package expected, got {c:?}")) } }
    pub fn nt(&self, i: u16) -> R<(V, Vec<u16>)> { match self.get(i)? { Cp::Nt(a, b) => Ok((self.s(*a)?, self.utf8(*b)?)), c => Err(format!("constant {i}: NameAndType expected, got {c:?}")) } }
    pub fn desc(&self, i: u16) -> R<V> { let d = self.utf8(i)?; if desc_ok(&d, false) || desc_ok(&d, true) { Ok(S(d)) } else { Err(format!("bad descriptor {:?}", S(d))) } }
    pub fn member(&self, i: u16) -> R<V> {
        let (k, c, n) = match self.get(i)? { Cp::Field(c, n) => ("field", *c, *n), Cp::Method(c, n) => ("method", *c, *n), Cp::IMethod(c, n) => ("imethod", *c, *n), c => bail!("constant {i}: member expected, got {c:?}") };
        let (name, d) = self.nt(n)?;
        Ok(N(k, vec![self.class(c)?, name, S(d)]))
    }
    pub fn mh(&self, i: u16) -> R<V> { match self.get(i)? { Cp::Mh(k, m) => Ok(N("mh", vec![I(*k as i64), self.member(*m)?])), c => Err(format!("constant {i}: MethodHandle expected, got {c:?}")) } }
    pub fn dynamic(&self, i: u16, indy: bool, depth: u32) -> R<V> {
        let (b, nt) = match (self.get(i)?, indy) { (Cp::Dyn(b, n), false) | (Cp::Indy(b, n), true) => (*b, *n), (c, _) => bail!("constant {i}: dynamic expected, got {c:?}") };
        let (name, d) = self.nt(nt)?;
        if !desc_ok(&d, indy) { bail!("dynamic descriptor {:?}", S(d)) }
        Ok(N("dyn", vec![name, S(d), self.bsm_v(b, depth)?]))
    }
    pub fn bsm_v(&self, b: u16, depth: u32) -> R<V> {
        let left = BUDGET.with(|x| { let v = x.get(); x.set(v.saturating_sub(1)); v });
        if depth > 256 || left == 0 { bail!("bootstrap cycle") }
        let (h, a) = self.bsm.get(b as usize).ok_or_else(|| format!("bootstrap method {b} missing ({} present)", self.bsm.len()))?;
        let mut args = vec![];
        for x in a { args.push(self.loadable(*x, depth + 1)?) }
        Ok(N("bsm", vec![self.mh(*h)?, L(args)]))
    }
    pub fn loadable(&self, i: u16, depth: u32) -> R<V> {
        Ok(match self.get(i)? {
            Cp::Int(x) => N("int", vec![I(*x as i64)]), Cp::Float(x) => N("float", vec![I(*x as i64)]),
            Cp::Long(x) => N("long", vec![I(*x)]), Cp::Double(x) => N("double", vec![I(*x as i64)]),
            Cp::Str(u) => N("string", vec![self.s(*u)?]), Cp::Class(u) => N("cls", vec![self.s(*u)?]),
            Cp::Mt(u) => N("mtype", vec![self.s(*u)?]), Cp::Mh(..) => self.mh(i)?,
            Cp::Dyn(..) => self.dynamic(i, false, depth)?,
            c => bail!("constant {i}: loadable expected, got {c:?}"),
        })
    }
    fn or_dyn(&self, i: u16, f: impl Fn(u16) -> R<V>) -> R<V> { if let Ok(Cp::Dyn(..)) = self.get(i) { self.dynamic(i, false, 0) } else { f(i) } }
}

/// Field (`method`=false) or method descriptor check, JVMS 4.3.
pub fn desc_ok(d: &[u16], method: bool) -> bool {
    fn field(d: &[u16], mut p: usize) -> Option<usize> {
        let mut dim = 0;
        while d.get(p) == Some(&('[' as u16)) { p += 1; dim += 1 }
        if dim > 255 { return None }
        match char::from_u32(*d.get(p)? as u32)? {
            'B' | 'C' | 'D' | 'F' | 'I' | 'J' | 'S' | 'Z' => Some(p + 1),
            'L' => { let e = d[p..].iter().position(|c| *c == ';' as u16)?; Some(p + e + 1) }
            _ => None,
        }
    }
    if !method { return field(d, 0) == Some(d.len()) }
    if d.first() != Some(&('(' as u16)) { return false }
    let mut p = 1;
    while d.get(p) != Some(&(')' as u16)) { match field(d, p) { Some(q) => p = q, None => return false } }
    p += 1;
    if d.get(p) == Some(&('V' as u16)) { return p + 1 == d.len() }
    field(d, p) == Some(d.len())
}

thread_local! { static BUDGET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub fn parse_class(b: &[u8]) -> R<V> { Ok(parse_all(b)?.0) }
/// The class and the number of bootstrap methods in its table.
pub fn parse_full(b: &[u8]) -> R<(V, usize)> { let (v, t) = parse_all(b)?; Ok((v, t.map_or(0, |t| t.1.len()))) }
/// The class and its bootstrap table: its place among the attributes and its methods.
pub fn parse_all(b: &[u8]) -> R<(V, Option<(usize, Vec<V>)>)> {
    let mut r = Rd::new(b);
    if r.u4()? != 0xCAFEBABE { bail!("magic") }
    let minor = r.u2()?; let major = r.u2()?;
    if !(45..=59).contains(&major) { bail!("major {major}") }
    let mut p = Pool::parse(&mut r)?;
    // the bootstrap table sits in the last attribute list; find it first
    let start = r.p;
    skip_to_class_attrs(&mut r)?;
    let na = r.u2()?;
    let mut place = 0;
    for k in 0..na {
        let name = p.utf8(r.u2()?)?; let l = r.u4()? as usize; let d = r.take(l)?;
        if String::from_utf16_lossy(&name) == "BootstrapMethods" {
            place = k as usize;
            if p.has_bsm { bail!("two BootstrapMethods attributes") }
            p.has_bsm = true;
            let mut q = Rd::new(d);
            for _ in 0..q.u2()? { let h = q.u2()?; let n = q.u2()?; let mut a = vec![]; for _ in 0..n { a.push(q.u2()?) } p.bsm.push((h, a)) }
            q.end()?;
        }
    }
    r.end()?;
    let mut table = vec![]; for i in 0..p.bsm.len() { table.push(p.bsm_v(i as u16, 0)?) }
    for i in 1..p.e.len() as u32 { match p.e[i as usize] { Cp::Dyn(..) => { p.dynamic(i as u16, false, 0)?; } Cp::Indy(..) => { p.dynamic(i as u16, true, 0)?; } _ => {} } }
    r.p = start;
    let access = r.u2()?; let name = p.class(r.u2()?)?; let sup = p.opt_class(r.u2()?)?;
    let mut ifs = vec![]; for _ in 0..r.u2()? { ifs.push(p.class(r.u2()?)?) }
    let mut fields = vec![];
    for _ in 0..r.u2()? { fields.push(member(&mut r, &p, Loc::Field)?) }
    let mut methods = vec![];
    for _ in 0..r.u2()? { methods.push(member(&mut r, &p, Loc::Method)?) }
    let attrs = attributes(&mut r, &p, Loc::Class)?;
    r.end()?;
    Ok((N("class", vec![I(minor as i64), I(major as i64), I(access as i64), name, sup, L(ifs), L(fields), L(methods), L(attrs)]), if p.has_bsm { Some((place, table)) } else { None }))
}
fn skip_to_class_attrs(r: &mut Rd) -> R<()> {
    r.take(6)?; let n = r.u2()?; r.take(2 * n as usize)?;
    for _ in 0..2 { for _ in 0..r.u2()? { r.take(6)?; for _ in 0..r.u2()? { r.take(2)?; let l = r.u4()?; r.take(l as usize)?; } } }
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
pub enum Loc { Class, Field, Method }
fn member(r: &mut Rd, p: &Pool, loc: Loc) -> R<V> {
    let f = r.u2()?; let name = p.s(r.u2()?)?; let d = p.utf8(r.u2()?)?;
    if !desc_ok(&d, loc == Loc::Method) { bail!("member descriptor {:?}", S(d)) }
    Ok(N("member", vec![I(f as i64), name, S(d), L(attributes(r, p, loc)?)]))
}
pub fn attributes(r: &mut Rd, p: &Pool, loc: Loc) -> R<Vec<V>> {
    let mut out = vec![];
    for _ in 0..r.u2()? {
        let name = p.utf8(r.u2()?)?; let l = r.u4()? as usize; let d = r.take(l)?;
        let mut q = Rd::new(d);
        let nm = String::from_utf16_lossy(&name);
        let v = (|| -> R<Option<V>> { let v = attr(&nm, &name, &mut q, p, loc)?; q.end()?; Ok(v) })().map_err(|e| format!("{nm}: {e}"))?;
        if let Some(v) = v { out.push(v) }
    }
    Ok(out)
}
fn list16(r: &mut Rd, mut f: impl FnMut(&mut Rd) -> R<V>) -> R<V> { let mut v = vec![]; for _ in 0..r.u2()? { v.push(f(r)?) } Ok(L(v)) }
fn attr(nm: &str, name: &[u16], q: &mut Rd, p: &Pool, loc: Loc) -> R<Option<V>> {
    use Loc::*;
    Ok(Some(match (nm, loc) {
        ("Signature", _) => N("Signature", vec![p.s(q.u2()?)?]),
        ("Synthetic", _) => N("Synthetic", vec![]),
        ("Deprecated", _) => N("Deprecated", vec![]),
        ("SourceFile", Class) => N("SourceFile", vec![p.s(q.u2()?)?]),
        ("InnerClasses", Class) => N("InnerClasses", vec![list16(q, |q| Ok(N("ic", vec![p.class(q.u2()?)?, p.opt_class(q.u2()?)?, p.opt_s(q.u2()?)?, I(q.u2()? as i64)])))?]),
        ("EnclosingMethod", Class) => N("EnclosingMethod", vec![p.class(q.u2()?)?, { let i = q.u2()?; if i == 0 { none() } else { let (a, b) = p.nt(i)?; N("nt", vec![a, S(b)]) } }]),
        ("SourceDebugExtension", Class) => { let l = q.b.len(); N("SourceDebugExtension", vec![S(mutf8(q.take(l)?)?)]) }
        ("BootstrapMethods", Class) => { q.p = q.b.len(); return Ok(None) }
        ("Module", Class) => {
            let (name, fl, ver) = (p.module(q.u2()?)?, I(q.u2()? as i64), p.opt_s(q.u2()?)?);
            let req = list16(q, |q| Ok(N("req", vec![p.module(q.u2()?)?, I(q.u2()? as i64), p.opt_s(q.u2()?)?])))?;
            let mut exo = |n: &'static str| list16(q, |q| { let (a, f) = (p.package(q.u2()?)?, I(q.u2()? as i64)); Ok(N(n, vec![a, f, list16(q, |q| p.module(q.u2()?))?])) });
            let exp = exo("exp")?; let op = exo("open")?;
            let uses = list16(q, |q| p.class(q.u2()?))?;
            let prov = list16(q, |q| { let c = p.class(q.u2()?)?; Ok(N("prov", vec![c, list16(q, |q| p.class(q.u2()?))?])) })?;
            N("Module", vec![name, fl, ver, req, exp, op, uses, prov])
        }
        ("ModulePackages", Class) => N("ModulePackages", vec![list16(q, |q| p.package(q.u2()?))?]),
        ("ModuleMainClass", Class) => N("ModuleMainClass", vec![p.class(q.u2()?)?]),
        ("NestHost", Class) => N("NestHost", vec![p.class(q.u2()?)?]),
        ("NestMembers", Class) => N("NestMembers", vec![list16(q, |q| p.class(q.u2()?))?]),
        ("ConstantValue", Field) => { let i = q.u2()?; if !matches!(p.get(i)?, Cp::Int(_) | Cp::Float(_) | Cp::Long(_) | Cp::Double(_) | Cp::Str(_)) { bail!("ConstantValue kind") } N("ConstantValue", vec![p.loadable(i, 0)?]) }
        ("RuntimeVisibleAnnotations", _) => N("RVA", vec![list16(q, |q| annotation(q, p))?]),
        ("RuntimeInvisibleAnnotations", _) => N("RIA", vec![list16(q, |q| annotation(q, p))?]),
        ("RuntimeVisibleTypeAnnotations", l) => N("RVTA", vec![list16(q, |q| type_annotation(q, p, Some(l), None))?]),
        ("RuntimeInvisibleTypeAnnotations", l) => N("RITA", vec![list16(q, |q| type_annotation(q, p, Some(l), None))?]),
        ("RuntimeVisibleParameterAnnotations", Method) => { let mut v = vec![]; for _ in 0..q.u1()? { v.push(list16(q, |q| annotation(q, p))?) } N("RVPA", vec![L(v)]) }
        ("RuntimeInvisibleParameterAnnotations", Method) => { let mut v = vec![]; for _ in 0..q.u1()? { v.push(list16(q, |q| annotation(q, p))?) } N("RIPA", vec![L(v)]) }
        ("Exceptions", Method) => N("Exceptions", vec![list16(q, |q| p.class(q.u2()?))?]),
        ("AnnotationDefault", Method) => N("AnnotationDefault", vec![element(q, p)?]),
        ("MethodParameters", Method) => { let mut v = vec![]; for _ in 0..q.u1()? { v.push(N("mp", vec![p.opt_s(q.u2()?)?, I(q.u2()? as i64)])) } N("MethodParameters", vec![L(v)]) }
        ("Code", Method) => code(q, p)?,
        _ => { let l = q.b.len(); N("raw", vec![S(name.to_vec()), B(q.take(l)?.to_vec())]) }
    }))
}
fn pairs(q: &mut Rd, p: &Pool) -> R<V> {
    let mut v = vec![];
    for _ in 0..q.u2()? { v.push(N("pair", vec![p.s(q.u2()?)?, element(q, p)?])) }
    v.sort();
    Ok(L(v))
}
pub fn annotation(q: &mut Rd, p: &Pool) -> R<V> { let t = p.utf8(q.u2()?)?; if !desc_ok(&t, false) { bail!("annotation type {:?}", S(t)) } Ok(N("ann", vec![S(t), pairs(q, p)?])) }
pub fn element(q: &mut Rd, p: &Pool) -> R<V> {
    let t = q.u1()?;
    let int = |i: u16, lo: i32, hi: i32| match p.get(i)? { Cp::Int(x) if *x >= lo && *x <= hi => Ok(I(*x as i64)), c => Err(format!("element '{}': {c:?}", t as char)) };
    let mut v = vec![I(t as i64)];
    match t {
        b'B' => v.push(int(q.u2()?, -128, 127)?), b'C' => v.push(int(q.u2()?, 0, 65535)?), b'S' => v.push(int(q.u2()?, -32768, 32767)?),
        b'Z' => v.push(int(q.u2()?, 0, 1)?), b'I' => v.push(int(q.u2()?, i32::MIN, i32::MAX)?),
        b'D' => match p.get(q.u2()?)? { Cp::Double(x) => v.push(I(*x as i64)), c => bail!("element D: {c:?}") },
        b'F' => match p.get(q.u2()?)? { Cp::Float(x) => v.push(I(*x as i64)), c => bail!("element F: {c:?}") },
        b'J' => match p.get(q.u2()?)? { Cp::Long(x) => v.push(I(*x)), c => bail!("element J: {c:?}") },
        b's' => v.push(p.s(q.u2()?)?),
        b'e' => { let d = p.utf8(q.u2()?)?; if !desc_ok(&d, false) { bail!("enum type {:?}", S(d)) } v.push(S(d)); v.push(p.s(q.u2()?)?) }
        b'c' => { let d = p.utf8(q.u2()?)?; if !desc_ok(&d, false) && d != ['V' as u16] { bail!("class element {:?}", S(d)) } v.push(S(d)) }
        b'@' => v.push(annotation(q, p)?),
        b'[' => { let mut a = vec![]; for _ in 0..q.u2()? { a.push(element(q, p)?) } v.push(L(a)) }
        _ => bail!("element tag {t}"),
    }
    Ok(N("ev", v))
}
pub struct CodeCtx<'a> { pub pcs: &'a HashMap<u32, usize>, pub handlers: &'a [V] }
pub fn type_annotation(q: &mut Rd, p: &Pool, loc: Option<Loc>, cc: Option<&CodeCtx>) -> R<V> {
    let t = q.u1()?;
    let mut v = vec![I(t as i64)];
    match (t, loc) {
        (0x00, Some(Loc::Class)) | (0x01, Some(Loc::Method)) | (0x16, Some(Loc::Method)) => v.push(I(q.u1()? as i64)),
        (0x10, Some(Loc::Class)) | (0x17, Some(Loc::Method)) => v.push(I(q.u2()? as i64)),
        (0x11, Some(Loc::Class)) | (0x12, Some(Loc::Method)) => { v.push(I(q.u1()? as i64)); v.push(I(q.u1()? as i64)) }
        (0x13, Some(Loc::Field)) | (0x14 | 0x15, Some(Loc::Method)) => {}
        (0x40 | 0x41, None) => {
            let c = cc.unwrap(); let mut l = vec![];
            for _ in 0..q.u2()? { let s = q.u2()? as u32; let n = q.u2()? as u32; l.push(L(vec![pos(c.pcs, s)?, pos(c.pcs, s + n)?, I(q.u2()? as i64)])) }
            v.push(L(l));
        }
        (0x42, None) => { let c = cc.unwrap(); let i = q.u2()? as usize; v.push(c.handlers.get(i).cloned().ok_or(format!("exception index {i}"))?) }
        (0x43..=0x46, None) => v.push(pos(cc.unwrap().pcs, q.u2()? as u32)?),
        (0x47..=0x4B, None) => { v.push(pos(cc.unwrap().pcs, q.u2()? as u32)?); v.push(I(q.u1()? as i64)) }
        _ => bail!("target_type {t:#x}"),
    }
    let mut path = vec![];
    for _ in 0..q.u1()? { let k = q.u1()?; let a = q.u1()?; if k > 3 { bail!("type path kind {k}") } path.push(L(vec![I(k as i64), I(a as i64)])) }
    let ty = p.utf8(q.u2()?)?; if !desc_ok(&ty, false) { bail!("annotation type {:?}", S(ty)) }
    Ok(N("tann", vec![N("tgt", v), L(path), S(ty), pairs(q, p)?]))
}
fn pos(m: &HashMap<u32, usize>, pc: u32) -> R<V> { m.get(&pc).map(|i| I(*i as i64)).ok_or_else(|| format!("pc {pc} is not an instruction")) }

/// One decoded instruction with its pc; targets are absolute pcs.
#[derive(Clone, Debug, PartialEq)]
pub struct Insn { pub pc: u32, pub v: V }
pub const LD: [&str; 5] = ["i", "l", "f", "d", "a"];
/// Decodes a code array. Branch targets are left as pcs.
pub fn decode(b: &[u8], p: &Pool) -> R<Vec<Insn>> {
    let mut r = Rd::new(b);
    let mut out = vec![];
    let int = |x: i64| N("push", vec![N("int", vec![I(x)])]);
    while r.p < b.len() {
        let pc = r.p as u32;
        let op = r.u1()?;
        let tgt = |off: i64| -> R<V> { let t = pc as i64 + off; if t < 0 || t >= b.len() as i64 { Err(format!("branch from {pc} to {t}")) } else { Ok(I(t)) } };
        let v = match op {
            2..=8 => int(op as i64 - 3),
            9 | 10 => N("push", vec![N("long", vec![I(op as i64 - 9)])]),
            11..=13 => N("push", vec![N("float", vec![I(((op - 11) as f32).to_bits() as i64)])]),
            14 | 15 => N("push", vec![N("double", vec![I(((op - 14) as f64).to_bits() as i64)])]),
            16 => int(r.u1()? as i8 as i64), 17 => int(r.u2()? as i16 as i64),
            18 | 19 | 20 => {
                let i = if op == 18 { r.u1()? as u16 } else { r.u2()? };
                let c = p.loadable(i, 0)?;
                let wide = matches!(c.name(), "long" | "double") || (c.name() == "dyn" && matches!(c.at(1).st().as_slice(), [x] if *x == 'J' as u16 || *x == 'D' as u16));
                if wide != (op == 20) { bail!("opcode {op} with {c:?}") }
                N("push", vec![c])
            }
            21..=25 => N("load", vec![I(op as i64 - 21), I(r.u1()? as i64)]),
            26..=45 => N("load", vec![I((op as i64 - 26) / 4), I((op as i64 - 26) % 4)]),
            54..=58 => N("store", vec![I(op as i64 - 54), I(r.u1()? as i64)]),
            59..=78 => N("store", vec![I((op as i64 - 59) / 4), I((op as i64 - 59) % 4)]),
            132 => N("iinc", vec![I(r.u1()? as i64), I(r.u1()? as i8 as i64)]),
            153..=167 | 198 | 199 => N("jmp", vec![I(op as i64), tgt(r.u2()? as i16 as i64)?]),
            200 => N("jmp", vec![I(167), tgt(r.u4()? as i32 as i64)?]),
            168 => N("jsr", vec![tgt(r.u2()? as i16 as i64)?]),
            201 => N("jsr", vec![tgt(r.u4()? as i32 as i64)?]),
            169 => N("ret", vec![I(r.u1()? as i64)]),
            170 | 171 => {
                while r.p % 4 != 0 { if r.u1()? != 0 { bail!("non-zero switch padding") } }
                let d = tgt(r.u4()? as i32 as i64)?;
                if op == 170 {
                    let lo = r.u4()? as i32; let hi = r.u4()? as i32;
                    if lo > hi { bail!("tableswitch {lo}>{hi}") }
                    let n = hi as i64 - lo as i64 + 1;
                    if n as usize * 4 > b.len() { bail!("tableswitch too long") }
                    let mut l = vec![]; for _ in 0..n { l.push(tgt(r.u4()? as i32 as i64)?) }
                    N("tsw", vec![d, I(lo as i64), L(l)])
                } else {
                    let n = r.u4()? as i32; if n < 0 || n as usize * 8 > b.len() { bail!("lookupswitch npairs {n}") }
                    let mut l: Vec<V> = vec![]; let mut last = i64::MIN;
                    for _ in 0..n { let k = r.u4()? as i32 as i64; if k <= last { bail!("lookupswitch keys not ascending") } last = k; l.push(L(vec![I(k), tgt(r.u4()? as i32 as i64)?])) }
                    N("lsw", vec![d, L(l)])
                }
            }
            178..=184 => {
                let m = p.or_dyn(r.u2()?, |i| p.member(i))?;
                let ok = match (op, m.name()) { (_, "dyn") => true, (178..=181, "field") => true, (182, "method") => true, (183 | 184, "method" | "imethod") => true, _ => false };
                if !ok { bail!("opcode {op} with {m:?}") }
                N("ref", vec![I(op as i64), m])
            }
            185 => { let m = p.or_dyn(r.u2()?, |i| p.member(i))?; if !matches!(m.name(), "imethod" | "dyn") { bail!("invokeinterface with {m:?}") } let c = r.u1()?; if r.u1()? != 0 { bail!("invokeinterface fourth operand") } N("itf", vec![m, I(c as i64)]) }
            186 => { let d = p.dynamic(r.u2()?, true, 0)?; if r.u2()? != 0 { bail!("invokedynamic zero bytes") } N("indy", vec![d]) }
            187 => N("new", vec![p.or_dyn(r.u2()?, |i| p.class(i))?]),
            188 => { let t = r.u1()?; if !(4..=11).contains(&t) { bail!("newarray type {t}") } N("newarr", vec![s(&"ZCFDBSIJ"[t as usize - 4..t as usize - 3])]) }
            189 => N("newarr", vec![p.or_dyn(r.u2()?, |i| { let c = p.class(i)?; elem_of_class(c.st()) })?]),
            192 | 193 => N("cast", vec![I(op as i64), p.or_dyn(r.u2()?, |i| { let c = p.class(i)?; if c.st().first() == Some(&('[' as u16)) { elem_of_class(c.st())?; } Ok(c) })?]),
            197 => {
                let c = p.or_dyn(r.u2()?, |i| p.class(i))?; let d = r.u1()?;
                if d == 0 { bail!("multianewarray dim 0") }
                if let S(x) = &c { let k = x.iter().take_while(|c| **c == '[' as u16).count(); if k < d as usize || !desc_ok(x, false) { bail!("multianewarray {c:?} dim {d}") } }
                if d == 1 { match c { S(x) => N("newarr", vec![S(x[1..].to_vec())]), c => N("newarr", vec![c]) } } else { N("multi", vec![c, I(d as i64)]) }
            }
            196 => match r.u1()? {
                o @ 21..=25 => N("load", vec![I(o as i64 - 21), I(r.u2()? as i64)]),
                o @ 54..=58 => N("store", vec![I(o as i64 - 54), I(r.u2()? as i64)]),
                169 => N("ret", vec![I(r.u2()? as i64)]),
                132 => N("iinc", vec![I(r.u2()? as i64), I(r.u2()? as i16 as i64)]),
                o => bail!("wide {o}"),
            },
            0 | 1 | 46..=53 | 79..=131 | 133..=152 | 172..=177 | 190 | 191 | 194 | 195 => N("op", vec![I(op as i64)]),
            _ => bail!("undefined opcode {op}"),
        };
        out.push(Insn { pc, v });
    }
    Ok(out)
}
/// Element descriptor of `anewarray C`.
pub fn elem_of_class(c: &[u16]) -> R<V> {
    if c.first() == Some(&('[' as u16)) { if !desc_ok(c, false) { bail!("array class {:?}", S(c.to_vec())) } return Ok(S(c.to_vec())) }
    let mut d = vec!['L' as u16]; d.extend_from_slice(c); d.push(';' as u16); Ok(S(d))
}
/// Rewrites pc targets of a decoded instruction through `f`.
pub fn retarget(v: &V, f: &mut dyn FnMut(i64) -> R<i64>) -> R<V> {
    Ok(match v {
        N("jmp", a) => N("jmp", vec![a[0].clone(), I(f(a[1].i())?)]),
        N("jsr", a) => N("jsr", vec![I(f(a[0].i())?)]),
        N("tsw", a) => { let d = f(a[0].i())?; let mut l = vec![]; for x in a[2].l() { l.push(I(f(x.i())?)) } N("tsw", vec![I(d), a[1].clone(), L(l)]) }
        N("lsw", a) => { let d = f(a[0].i())?; let mut l = vec![]; for x in a[1].l() { l.push(L(vec![x.at(0).clone(), I(f(x.at(1).i())?)])) } N("lsw", vec![I(d), L(l)]) }
        v => v.clone(),
    })
}
/// What is needed to look at a Code attribute at pc level.
pub struct RawCode { pub stack: u16, pub locals: u16, pub bytes: Vec<u8>, pub insns: Vec<Insn> }
pub fn code(q: &mut Rd, p: &Pool) -> R<V> {
    let stack = q.u2()?; let locals = q.u2()?;
    let len = q.u4()? as usize;
    if len == 0 || len > 65535 { bail!("code_length {len}") }
    let b = q.take(len)?;
    let ins = decode(b, p)?;
    let mut pcs: HashMap<u32, usize> = ins.iter().enumerate().map(|(i, x)| (x.pc, i)).collect();
    let mut insns = vec![];
    for i in &ins { insns.push(retarget(&i.v, &mut |t| pcs.get(&(t as u32)).map(|x| *x as i64).ok_or_else(|| format!("branch at {} to {t}, not an instruction", i.pc)))?) }
    pcs.insert(len as u32, ins.len());
    let mut hs = vec![];
    for _ in 0..q.u2()? {
        let (a, e, h) = (q.u2()? as u32, q.u2()? as u32, q.u2()? as u32);
        if a >= e || h as usize >= len { bail!("handler range {a}..{e} -> {h}") }
        hs.push(N("h", vec![pos(&pcs, a)?, pos(&pcs, e)?, pos(&pcs, h)?, p.opt_class(q.u2()?)?]));
    }
    let (mut lines, mut lv, mut lvt, mut other) = (vec![], vec![], vec![], vec![]);
    for _ in 0..q.u2()? {
        let name = p.utf8(q.u2()?)?; let l = q.u4()? as usize; let d = q.take(l)?;
        let mut r = Rd::new(d);
        let nm = String::from_utf16_lossy(&name);
        let cc = CodeCtx { pcs: &pcs, handlers: &hs };
        (|| -> R<()> {
            match nm.as_str() {
                "LineNumberTable" => for _ in 0..r.u2()? { let pc = r.u2()? as u32; if pc as usize >= len { bail!("line pc {pc}") } lines.push(L(vec![pos(&pcs, pc)?, I(r.u2()? as i64)])) },
                "LocalVariableTable" | "LocalVariableTypeTable" => for _ in 0..r.u2()? {
                    let s0 = r.u2()? as u32; let n = r.u2()? as u32;
                    let t = vec![pos(&pcs, s0)?, pos(&pcs, s0 + n)?, p.s(r.u2()?)?, p.s(r.u2()?)?, I(r.u2()? as i64)];
                    if nm == "LocalVariableTable" { if !desc_ok(t[3].st(), false) { bail!("descriptor {:?}", t[3]) } lv.push(L(t)) } else { lvt.push(L(t)) }
                },
                "RuntimeVisibleTypeAnnotations" => other.push(N("RVTA", vec![list16(&mut r, |r| type_annotation(r, p, None, Some(&cc)))?])),
                "RuntimeInvisibleTypeAnnotations" => other.push(N("RITA", vec![list16(&mut r, |r| type_annotation(r, p, None, Some(&cc)))?])),
                "StackMapTable" => { for _ in 0..r.u2()? { frame(&mut r, p, Some(&pcs))?; } }
                _ => { let l = r.b.len(); other.push(N("raw", vec![S(name.clone()), B(r.take(l)?.to_vec())])) }
            }
            r.end()
        })().map_err(|e| format!("{nm}: {e}"))?;
    }
    lines.sort_by_key(|l| l.at(0).i());
    sort_vars(&mut lv); sort_vars(&mut lvt);
    Ok(N("code", vec![I(stack as i64), I(locals as i64), L(insns), L(hs), L(lines), L(lv), L(lvt), L(other)]))
}
pub fn vtype(r: &mut Rd, p: &Pool, pcs: Option<&HashMap<u32, usize>>) -> R<V> {
    let t = r.u1()?;
    let mut v = vec![I(t as i64)];
    match t { 0..=6 => {} 7 => v.push(p.class(r.u2()?)?), 8 => { let o = r.u2()? as u32; v.push(match pcs { Some(m) => pos(m, o)?, None => I(o as i64) }) } _ => bail!("verification tag {t}") }
    Ok(N("vt", v))
}
/// Frame kinds: same, one, chop, append, full - with explicit offset delta.
pub fn frame(r: &mut Rd, p: &Pool, pcs: Option<&HashMap<u32, usize>>) -> R<V> {
    let t = r.u1()?;
    Ok(match t {
        0..=63 => N("same", vec![I(t as i64)]),
        64..=127 => N("one", vec![I(t as i64 - 64), vtype(r, p, pcs)?]),
        128..=246 => bail!("reserved frame {t}"),
        247 => N("one", vec![I(r.u2()? as i64), vtype(r, p, pcs)?]),
        248..=250 => N("chop", vec![I(r.u2()? as i64), I(251 - t as i64)]),
        251 => N("same", vec![I(r.u2()? as i64)]),
        252..=254 => { let o = I(r.u2()? as i64); let mut l = vec![]; for _ in 251..t { l.push(vtype(r, p, pcs)?) } N("append", vec![o, L(l)]) }
        255 => { let o = I(r.u2()? as i64); let a = list16(r, |r| vtype(r, p, pcs))?; let b = list16(r, |r| vtype(r, p, pcs))?; N("full", vec![o, a, b]) }
    })
}
