//! C24: parts of a class on their own, through any constant pool, from any place of a stream.
use crate::engine::*;
use crate::v::*;
use crate::{abs, conc, fam, gen};
use coffer::annotation::{Annotation, AnnotationValue};
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, ReadWrite};
use once_cell::sync::OnceCell;
use std::collections::HashMap;
use std::sync::Arc;

type Cell = Arc<OnceCell<BootstrapMethod>>;
type R<T> = Result<T, String>;

/// A stream that may not be asked for more than there is: such a read would block on a pipe or socket.
struct Strict<'a> { b: &'a [u8], one: bool, past: bool }
impl std::io::Read for Strict<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if o.is_empty() { return Ok(0) }
        if self.b.is_empty() { self.past = true; return Ok(0) }
        let n = if self.one { 1 } else { o.len().min(self.b.len()) };
        o[..n].copy_from_slice(&self.b[..n]); self.b = &self.b[n..];
        Ok(n)
    }
}

// ------------------------------------------------------------------ pools
/// Index assignments of a pool that is not the library's own.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Scheme { Lib, LibFilled(u16), Append, Down, From(u16), Sparse }
const SCHEMES: [Scheme; 8] = [Scheme::Lib, Scheme::LibFilled(1), Scheme::LibFilled(252), Scheme::Append, Scheme::Down, Scheme::From(254), Scheme::From(32766), Scheme::Sparse];
struct Pool { scheme: Scheme, lib: VecCp, map: HashMap<u16, RawConstantEntry>, seen: HashMap<RawConstantEntry, u16>, n: u32, bsm: Vec<BootstrapMethod>, full: bool }
impl Pool {
    fn new(scheme: Scheme) -> Pool {
        let mut p = Pool { scheme, lib: VecCp::new(), map: HashMap::new(), seen: HashMap::new(), n: 0, bsm: vec![], full: false };
        if let Scheme::LibFilled(n) = scheme { for k in 0..n { if k % 2 == 0 { p.lib.insert_long(k as i64 + 77_000); } else { p.lib.insert_int(k as i32 + 77_000); } } }
        p
    }
}
impl ConstantPoolWriter for Pool {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        if let Scheme::Lib | Scheme::LibFilled(_) = self.scheme { return self.lib.insert_raw(v) }
        if self.scheme != Scheme::Append { if let Some(k) = self.seen.get(&v) { return *k } }
        let w = if v.is_wide() { 2 } else { 1 };
        let k = match self.scheme { Scheme::Append => 1 + self.n, Scheme::Down => 65535u32.saturating_sub(self.n + w), Scheme::From(f) => f as u32 + self.n, _ => 1 + self.n * 7 };
        if k == 0 || k > 65534 { self.full = true; return 0 }
        self.n += w;
        self.map.insert(k as u16, v.clone()); self.seen.insert(v, k as u16);
        k as u16
    }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 {
        let k = self.bsm.iter().position(|x| *x == b).unwrap_or_else(|| { self.bsm.push(b); self.bsm.len() - 1 });
        k as u16
    }
}
/// A reader with nothing but the required methods.
struct Own { map: HashMap<u16, RawConstantEntry>, refs: Vec<(u16, Cell)> }
impl ConstantPoolReader for Own {
    fn read_raw(&mut self, k: u16) -> Option<RawConstantEntry> { self.map.get(&k).cloned() }
    fn resolve_later(&mut self, k: u16, c: Cell) { self.refs.push((k, c)) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> {
        for (k, c) in self.refs.drain(..) { let _ = c.set(b.get(k as usize).cloned().ok_or_else(|| coffer::Error::Invalid("bsm", k.to_string().into()))?); }
        Ok(())
    }
}
/// Delegates to another reader, as a user's wrapper would.
struct Wrap<C>(C);
impl<C: ConstantPoolReader> ConstantPoolReader for Wrap<C> {
    fn read_raw(&mut self, k: u16) -> Option<RawConstantEntry> { self.0.read_raw(k) }
    fn resolve_later(&mut self, k: u16, c: Cell) { self.0.resolve_later(k, c) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> { self.0.bootstrap_methods(b) }
}

// ------------------------------------------------------------------ parts
enum Part { F(Field), M(Method), Ca(ClassAttribute), Fa(FieldAttribute), Ma(MethodAttribute), A(Annotation), E(AnnotationValue), K(Constant), Mr(MemberRef), H(MethodHandle), B(BootstrapMethod) }
macro_rules! parts { ($($v:ident)*) => { impl Part {
    fn write<C: ConstantPoolWriter>(&self, cp: &mut C, w: &mut Vec<u8>) -> R<()> { match self { $(Part::$v(x) => ConstantPoolReadWrite::write_to(x, cp, w).map_err(|e| format!("write error: {e}")),)* } }
    fn read<C: ConstantPoolReader>(&self, cp: &mut C, r: &mut Strict) -> R<Part> { match self { $(Part::$v(_) => ConstantPoolReadWrite::read_from(cp, r).map(Part::$v).map_err(|e| format!("read error: {e}")),)* } }
    fn kind(&self) -> &'static str { match self { $(Part::$v(_) => stringify!($v),)* } }
} } }
parts! { F M Ca Fa Ma A E K Mr H B }
impl Part {
    fn abs(&self) -> R<V> {
        let empty = || Class { version: JavaVersion { minor: 0, major: MajorVersion::J8 }, access: ClassFlags::empty(), name: conc::w(&[65]), super_name: None, interfaces: vec![], fields: vec![], methods: vec![], attributes: vec![] };
        Ok(match self {
            Part::F(f) => { let mut c = empty(); c.fields.push(f.clone()); abs::class(&c)?.at(6).l()[0].clone() }
            Part::M(f) => { let mut c = empty(); c.methods.push(f.clone()); abs::class(&c)?.at(7).l()[0].clone() }
            Part::Ca(ClassAttribute::BootstrapMethods(b)) => { let mut o = vec![]; for x in b { o.push(abs::bsm(x)?) } N("bsms", vec![L(o)]) }
            Part::Ca(a) => abs::class_attr(a)?.unwrap(), Part::Fa(a) => abs::field_attr(a), Part::Ma(a) => abs::method_attr(a)?,
            Part::A(a) => abs::ann(a), Part::E(e) => abs::element(e), Part::K(k) => abs::konst(k), Part::Mr(m) => abs::member(m), Part::H(h) => abs::mh(h), Part::B(b) => abs::bsm(b)?,
        })
    }
}
fn of_class(c: Class) -> Vec<Part> {
    let mut p = vec![];
    for f in c.fields { for a in &f.attrs { p.push(Part::Fa(a.clone())) } p.push(Part::F(f)) }
    for m in c.methods { for a in &m.attributes { p.push(Part::Ma(a.clone())) } p.push(Part::M(m)) }
    for a in c.attributes { p.push(Part::Ca(a)) }
    p
}
/// Writes `parts` one after the other through a pool, and reads them back in the given orders.
fn trip(ctx: &Ctx, parts: &[Part], sch: Scheme) -> R<u64> {
    let mut pool = Pool::new(sch); let mut b = vec![0xEE; 3]; let mut at = vec![3usize];
    for p in parts { p.write(&mut pool, &mut b)?; at.push(b.len()); ctx.steps(1) }
    // the table of bootstrap methods is a part as well; its arguments may need more of them
    loop {
        let k = pool.bsm.len(); let t = Part::Ca(ClassAttribute::BootstrapMethods(pool.bsm.clone()));
        let mut o = vec![]; t.write(&mut pool, &mut o)?;
        if pool.bsm.len() == k || pool.full { b.extend(o); break }
    }
    let end = b.len();
    if pool.full { ctx.tag("pool full (skipped)"); return Ok(0) }
    let map = if let Scheme::Lib | Scheme::LibFilled(_) = sch {
        let mut o = vec![]; pool.lib.write_to(&mut o).map_err(|e| format!("pool: {e}"))?;
        let mut r = Strict { b: &o, one: false, past: false };
        let m = MapCp::read_from(&mut r).map_err(|e| format!("pool read: {e}"))?;
        if !r.b.is_empty() || r.past { return Err(format!("reading the pool takes {} of {} bytes, asks for more: {}", o.len() - r.b.len(), o.len(), r.past)) }
        m.entries
    } else { pool.map };
    let want: Vec<V> = parts.iter().map(|p| p.abs()).collect::<R<_>>()?;
    let n = parts.len();
    let mut orders: Vec<Vec<usize>> = vec![(0..n).collect()];
    if n > 1 { orders.push((0..n).rev().collect()); for k in 0..n.min(4) { orders.push(vec![k]) } for k in 0..n.min(4) { orders.push(vec![k, k]) } }
    for (j, o) in orders.iter().enumerate() {
        let lib = || { let mut m = MapCp::new(); m.entries = map.clone(); m };
        match j % 3 { 0 => back(&mut lib(), parts, o, &want, &b, &at, end, j)?, 1 => back(&mut Own { map: map.clone(), refs: vec![] }, parts, o, &want, &b, &at, end, j)?, _ => back(&mut Wrap(lib()), parts, o, &want, &b, &at, end, j)? }
        ctx.steps(o.len() as u64);
    }
    Ok(fnv(&b))
}
fn back<C: ConstantPoolReader>(cp: &mut C, parts: &[Part], order: &[usize], want: &[V], b: &[u8], at: &[usize], end: usize, j: usize) -> R<()> {
    let table_at = at[at.len() - 1];
    let tab = |cp: &mut C| -> R<Vec<BootstrapMethod>> {
        let mut r = Strict { b: &b[table_at..end], one: j % 2 == 1, past: false };
        match Part::Ca(ClassAttribute::BootstrapMethods(vec![])).read(cp, &mut r)? { Part::Ca(ClassAttribute::BootstrapMethods(t)) if r.b.is_empty() && !r.past => Ok(t), _ => Err("table of bootstrap methods".into()) }
    };
    let first = j % 2 == 0;
    let mut t = if first { tab(cp)? } else { vec![] };
    let mut got = vec![];
    for &k in order {
        // what follows in the stream stays there, and nothing behind the part is asked for
        for tail in [0, 9usize] {
            let e = (at[k + 1] + tail).min(b.len());
            let mut r = Strict { b: &b[at[k]..e], one: j % 2 == 1 && tail == 0, past: false };
            let g = parts[k].read(cp, &mut r).map_err(|e| format!("part {k} ({}): {e}", parts[k].kind()))?;
            if r.b.len() != e - at[k + 1] || r.past { return Err(format!("part {k} ({}) of {} bytes: reading takes {} and asks for more: {}", parts[k].kind(), at[k + 1] - at[k], e - at[k] - r.b.len(), r.past)) }
            got.push((k, g));
        }
    }
    if !first { t = tab(cp)? }
    cp.bootstrap_methods(&t).map_err(|e| format!("resolving: {e}"))?;
    for (k, g) in got { keep_order(|| super::c01::same(&format!("part {k} ({}) read in order {order:?}", parts[k].kind()), &want[k], &g.abs()?))?; }
    Ok(())
}

pub fn c24(ctx: &'static Ctx) -> i32 {
    ctx.rule("every field, method, attribute, annotation, element, constant, member reference, method handle and bootstrap method of the grammar, written by itself through 8 pool implementations / index assignments and read by 3 readers, forwards, backwards, alone and twice, from streams that end with the part (any further read is a violation) or go on behind it; whole classes and pairs of classes in one stream; numbers and strings");
    // classes of the grammar
    let mut vs = super::c01::corpus(ctx);
    vs.extend(fam::words(2)); vs.extend(fam::deep()); vs.extend(fam::flags()); vs.extend(fam::across());
    if ctx.thorough() { vs.extend(fam::words(3)); vs.extend(fam::sizes(false)); vs.extend(fam::long_strings(false)); vs.extend(fam::padded(false)); vs.extend(fam::moved_codes(false)); }
    ctx.tag_n("classes taken apart", vs.len() as u64);
    par(vs.len(), |k| {
        ctx.state(hash_of(&vs[k]));
        for (j, s) in SCHEMES.iter().enumerate() {
            if !ctx.thorough() && k >= 1000 && (j + k) % 2 == 1 { continue }
            ctx.case(|| format!("{s:?} parts of {:?}", vs[k]), || trip(ctx, &of_class(conc::class(&vs[k])), *s))
        }
    });
    // small parts
    let mut small: Vec<(&str, V)> = vec![];
    for a in gen::anns() { small.push(("ann", a)) }
    for e in gen::elements(ctx.pick(1, 2)) { small.push(("ev", e)) }
    for c in gen::consts() { small.push(("const", c)) }
    for d in gen::dyns().into_iter().chain(gen::indys()) { small.push(("bsm", d.at(2).clone())) }
    let make = |k: usize| -> Part { let (t, v) = &small[k]; match *t { "ann" => Part::A(conc::ann(v)), "ev" => Part::E(conc::element(v)), "bsm" => Part::B(conc::bsm(v)), _ => match conc::konst(v) { Constant::MethodHandle(h) if k % 2 == 0 => Part::H(h), Constant::Member(m) => Part::Mr(m), c => Part::K(c) } } };
    ctx.tag_n("small parts", small.len() as u64);
    par(small.len(), |k| for s in SCHEMES { ctx.state(hash_of(&small[k].1)); ctx.case(|| format!("{s:?} {:?}", small[k]), || trip(ctx, &[make(k)], s)) });
    let m = small.len().min(ctx.pick(150, 600)); let pick = |i: usize| i * small.len() / m;
    par(m * m, |k| { let (x, y) = (pick(k / m), pick(k % m)); let s = SCHEMES[k % SCHEMES.len()]; ctx.case(|| format!("{s:?} {:?} then {:?}", small[x], small[y]), || trip(ctx, &[make(x), make(y)], s)) });
    // whole classes in one stream
    let reps = { let mut r = fam::reps(); r.extend(gen::skeletons()); r };
    let bytes: Vec<Vec<u8>> = reps.iter().map(|v| { let mut b = vec![]; conc::class(v).write_to(&mut b).unwrap(); b }).collect();
    ctx.tag_n("pairs of classes in one stream", (reps.len() * reps.len()) as u64);
    par(reps.len() * reps.len(), |k| {
        let (x, y) = (k / reps.len(), k % reps.len());
        ctx.case(|| format!("{:?} then {:?}", reps[x], reps[y]), || {
            let mut b = bytes[x].clone(); b.extend(&bytes[y]);
            let mut r = Strict { b: &b, one: k % 2 == 1, past: false };
            for (n, v) in [(bytes[x].len(), &reps[x]), (b.len(), &reps[y])] {
                let c = Class::read_from(&mut r).map_err(|e| format!("read error: {e}"))?; ctx.steps(1);
                if b.len() - r.b.len() != n || r.past { return Err(format!("reading takes up to {} instead of {n}, asks for more: {}", b.len() - r.b.len(), r.past)) }
                keep_order(|| super::c01::same("class", v, &abs::class(&c)?))?;
            }
            Ok(fnv(&b))
        })
    });
    // one writer, many classes: nothing of an earlier one shows up in a later one
    par(reps.len(), |k| ctx.case(|| format!("written behind others: {:?}", reps[k]), || {
        let mut b = vec![]; for j in [k, (k + 1) % reps.len(), k] { conc::class(&reps[j]).write_to(&mut b).map_err(|e| e.to_string())?; }
        let n = bytes[k].len(); if b[..n] != bytes[k] || b[b.len() - n..] != bytes[k] { return Err("bytes depend on what was written before".into()) }
        Ok(fnv(&b))
    }));
    numbers(ctx);
    ctx.finish("model_checking")
}
fn num<T: ReadWrite + Copy>(x: T, be: &[u8], bits: impl Fn(T) -> u128) -> R<u64> {
    let mut o = vec![0xAB]; ReadWrite::write_to(&x, &mut o).map_err(|e| e.to_string())?;
    if o[1..] != *be { return Err(format!("written as {}", hex(&o[1..]))) }
    for tail in [0, 5] { for one in [false, true] {
        let mut s = be.to_vec(); s.extend(vec![0xCD; tail]);
        let mut r = Strict { b: &s, one, past: false };
        let y = T::read_from(&mut r).map_err(|e| e.to_string())?;
        if r.b.len() != tail || r.past || bits(y) != bits(x) { return Err(format!("read as {:x}, {} left, asks for more: {}", bits(y), r.b.len(), r.past)) }
    } }
    for k in 0..be.len() { if T::read_from(&mut &be[..k]).is_ok() { return Err(format!("{k} bytes are enough")) } }
    Ok(fnv(be))
}
fn numbers(ctx: &Ctx) {
    macro_rules! all { ($($t:ty),*) => { $(
        let n = std::mem::size_of::<$t>();
        let mut xs: Vec<$t> = vec![];
        if n <= 2 { for k in 0..1u32 << (8 * n) { xs.push(k as $t) } }
        else {
            // every byte value at every place, over three backgrounds; every pair of neighbouring bits
            for bg in [0 as $t, !(0 as $t), 0x0102030405060708090A0B0C0D0E0F10u128 as $t] { for p in 0..n { for v in 0..256u32 { let m = (0xFFu128 << (8 * p)) as $t; xs.push((bg & !m) | (((v as u128) << (8 * p)) as $t)) } } }
        }
        par(xs.len().div_ceil(256), |c| ctx.case(|| format!("{} {:?}..", stringify!($t), xs[c * 256]), || { let mut h = 0; for &x in &xs[c * 256..xs.len().min(c * 256 + 256)] { h ^= num(x, &x.to_be_bytes(), |y| y as u128).map_err(|e| format!("{x}: {e}"))?; } Ok(h) }));
        ctx.tag_n(concat!("values of ", stringify!($t)), xs.len() as u64);
    )* } }
    all!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);
    for p in 0..4 { for v in 0..256u32 { for bg in [0u32, !0, 0x7fc00001] { let x = f32::from_bits((bg & !(0xFF << (8 * p))) | v << (8 * p)); ctx.case(|| format!("f32 {:x}", x.to_bits()), || num(x, &x.to_bits().to_be_bytes(), |y| y.to_bits() as u128)) } } }
    for p in 0..8 { for v in 0..256u64 { for bg in [0u64, !0, 0x7ff8000000000001] { let x = f64::from_bits((bg & !(0xFF << (8 * p))) | v << (8 * p)); ctx.case(|| format!("f64 {:x}", x.to_bits()), || num(x, &x.to_bits().to_be_bytes(), |y| y.to_bits() as u128)) } } }
}
