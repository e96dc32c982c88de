//! C11 descriptors, C12 generic signatures.
use crate::engine::*;
use crate::v::*;
use crate::{abs, conc, parse};
use coffer::prelude::*;
use coffer::signature::*;
use coffer::ty::{parse_type, write_type};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use wtf_8::Wtf8String;

// ------------------------------------------------------------------ C11
/// Class names of the descriptor are all legal (JVMS 4.2.1): non-empty segments without . ; [ /
fn strict_names(d: &[u16]) -> bool {
    let mut p = 0;
    while p < d.len() {
        if d[p] == 'L' as u16 {
            let e = p + d[p..].iter().position(|c| *c == ';' as u16).unwrap();
            for seg in d[p + 1..e].split(|c| *c == '/' as u16) { if seg.is_empty() || seg.iter().any(|c| *c == '.' as u16 || *c == '[' as u16) { return false } }
            p = e
        }
        p += 1;
    }
    true
}
/// More than 255 parameter slots is ill-formed by JVMS 4.3.3, but nothing in the library promises to look.
fn judge(ctx: &Ctx, d: &[u16]) -> Result<u64, String> {
    let (f, m) = (parse::desc_ok(d, false), parse::desc_ok(d, true));
    let w = conc::w(d);
    let r = guard(|| parse_type(&w)).map_err(|e| format!("parse_type: {e}"))?;
    ctx.steps(1);
    // through a constant pool
    let mut cp = MapCp::new(); cp.entries.insert(1, RawConstantEntry::WTF8(w.clone()));
    let viacp = guard(|| <Type as ConstantPoolReadWrite>::read_from(&mut cp, &mut &[0u8, 1][..])).map_err(|e| format!("reading from the pool: {e}"))?;
    if viacp.is_ok() != r.is_ok() { return Err(format!("parse_type gives {r:?}, reading from the pool gives {viacp:?}")) }
    let t = match r { Err(e) => { if (f || m) && strict_names(d) { return Err(format!("well-formed descriptor rejected: {e}")) } return Ok(0) } Ok(t) => t };
    if !f && !m { return Err(format!("malformed descriptor accepted as {t:?}")) }
    if viacp.unwrap() != t { return Err("reading from the pool gives another type".into()) }
    let want = conc::ty(&S(d.to_vec()));
    if t != want || hash_of(&t) != hash_of(&want) { return Err(format!("parsed as {t:?} instead of {want:?}")) }
    value(ctx, &t, d)
}
/// A type value prints as `d` by every route, and its accessors agree.
fn value(ctx: &Ctx, t: &Type, d: &[u16]) -> Result<u64, String> {
    let mut o = Wtf8String::new(); write_type(t, &mut o);
    if abs::w16(&o) != d { return Err(format!("write_type prints {o:?}")) }
    let mut pre = Wtf8String::new(); pre.push_char('x'); write_type(t, &mut pre);
    if abs::w16(&pre)[1..] != *d { return Err(format!("write_type after other text prints {pre:?}")) }
    let f: Wtf8String = t.into();
    if abs::w16(&f) != d { return Err(format!("conversion prints {f:?}")) }
    let lossy = String::from_utf16_lossy(d);
    if t.to_string() != lossy { return Err(format!("Display prints {t}")) }
    let mut cp = abs::RecCp::default(); let mut b = vec![];
    ConstantPoolReadWrite::write_to(t, &mut cp, &mut b).map_err(|e| e.to_string())?;
    if b != [0, 1] || !matches!(&cp.e[..], [RawConstantEntry::WTF8(x)] if abs::w16(x) == d) { return Err(format!("written to the pool as {:?}", cp.e)) }
    ctx.steps(5);
    let m = d[0] == '(' as u16;
    if t.is_method() != m || t.as_method().is_some() != m { return Err("is_method".into()) }
    if t.is_wide() != (d == ['J' as u16] || d == ['D' as u16]) { return Err("is_wide".into()) }
    Ok(hash_of(&d))
}
fn cat(parts: &[&[u16]]) -> Vec<u16> { parts.concat() }
fn u16s(x: &str) -> Vec<u16> { x.encode_utf16().collect() }
pub fn c11(ctx: &'static Ctx) -> i32 {
    ctx.rule("every text over the descriptor alphabet up to the stated length; every well-formed descriptor of a bounded grammar and every one-character edit of it; distinct: accepted texts");
    let al: Vec<u16> = "BIJVL;[()a/".encode_utf16().chain([0xD800, 0xDC00, 0xE9]).collect();
    let len = ctx.pick(6, 7);
    ctx.note("alphabet", al.len()); ctx.note("text length", len);
    let block = 4096usize;
    for l in 0..=len {
        let total = al.len().pow(l as u32);
        par(total.div_ceil(block), |b| {
            let mut w = vec![];
            ctx.case(|| format!("texts {} of length {l} from {}", block.min(total - b * block), b * block), || {
                for k in b * block..((b + 1) * block).min(total) {
                    word(k, l, &al, &mut w);
                    // adjacent high+low halves make a supplementary character: same text
                    let h = judge(ctx, &w).map_err(|e| format!("{:?}: {e}", S(w.clone())))?;
                    if h != 0 { ctx.outcome(h) }
                }
                ctx.more((block.min(total - b * block) - 1) as u64);
                Ok(b as u64)
            });
        });
    }
    // grammar-directed
    let mut fields: Vec<Vec<u16>> = ["B", "C", "D", "F", "I", "J", "S", "Z", "La;", "Lp/q/Rs$1;", "L(;", "LI;", "LLa;", "Lé日;", "L\u{10000};"].iter().map(|x| u16s(x)).collect();
    fields.push(vec!['L' as u16, 0xDC00, 0xD800, ';' as u16]);
    let base = fields.clone();
    for d in [1usize, 2, 3, 254, 255] { for f in base.iter() { fields.push(cat(&[&vec!['[' as u16; d], f])) } }
    let mut ds = fields.clone();
    let rets: Vec<Vec<u16>> = { let mut r = vec![u16s("V")]; r.extend(fields.iter().cloned()); r };
    for r in &rets { ds.push(cat(&[&u16s("()"), r])); for a in &fields { ds.push(cat(&[&u16s("("), a, &u16s(")"), r])) } }
    for a in &base { for b in &base { ds.push(cat(&[&u16s("("), a, b, &u16s(")V")])); if ctx.thorough() { for c in &base { ds.push(cat(&[&u16s("("), a, b, c, &u16s(")"), c])) } } } }
    for n in [10usize, 254, 255] { ds.push(cat(&[&u16s("("), &vec!['I' as u16; n], &u16s(")V")])) }
    for n in 1..=6usize { for k in 0..n { for a in ["I", "La;", "[J"] { for x in &base { ds.push(cat(&[&u16s("("), &u16s(a).repeat(k), x, &u16s(a).repeat(n - 1 - k), &u16s(")I")])) } } } }
    ds.sort(); ds.dedup();
    ctx.note("grammar descriptors", ds.len());
    let edits: Vec<u16> = "IVL;[()/".encode_utf16().chain([0, 0xD800]).collect();
    par(ds.len(), |k| ctx.case(|| format!("{:?} and its edits", S(ds[k].clone())), || {
        let d = &ds[k]; ctx.state(hash_of(d));
        let h = judge(ctx, d)?;
        if h == 0 { return Err("rejected".into()) }
        let mut n = 0;
        let ed = |e: Vec<u16>| judge(ctx, &e).map_err(|x| format!("edited to {:?}: {x}", S(e)));
        for p in 0..=d.len() {
            if d.len() > 40 && p > 3 && p + 6 < d.len() { continue }
            for c in &edits { let mut e = d.clone(); e.insert(p, *c); ed(e)?; if p < d.len() { let mut e = d.clone(); e[p] = *c; ed(e)?; } n += 2 }
            for x in ["()V", "()", "(I)La;", "[V", "[()V", "La;", "[[", "L;", ")V", "(I", ";I", "V)"] { let mut e = d.clone(); e.splice(p..p, u16s(x)); ed(e)?; n += 1 }
            if p < d.len() { for x in [0x80u16, 0x100, 0x2000] { let Some(x) = d[p].checked_add(x) else { continue }; let mut e = d.clone(); e[p] = x; ed(e)?; let mut e = d.clone(); e.insert(p, x); ed(e)?; n += 2 } }
            if p < d.len() { let mut e = d.clone(); e.remove(p); ed(e)?; let mut e = d.clone(); e.truncate(p); if p > 0 { ed(e)?; } n += 2 }
        }
        ctx.more(n);
        Ok(h)
    }));
    for d in 250..=300usize { for x in ["I", "La;", "", "V", "()V"] { let t = cat(&[&vec!['[' as u16; d], &u16s(x)]); ctx.case(|| format!("{d} dimensions of {x:?}"), || { let h = judge(ctx, &t)?; Ok(h) }); let m = cat(&[&u16s("("), &t, &u16s(")V")]); ctx.case(|| format!("parameter with {d} dimensions of {x:?}"), || judge(ctx, &m)) } }
    // every code point in every kind of place
    par(0x110000 / 0x400, |k| ctx.case(|| format!("code points from {:#x}", k * 0x400), || {
        for c in k as u32 * 0x400..(k as u32 + 1) * 0x400 {
            let x: Vec<u16> = if c < 0x10000 { vec![c as u16] } else { vec![0xD800 + ((c - 0x10000) >> 10) as u16, 0xDC00 + (c & 0x3FF) as u16] };
            let go = |a: &str, b: &str| { let t = cat(&[&u16s(a), &x, &u16s(b)]); judge(ctx, &t).map_err(|e| format!("{:?}: {e}", S(t))) };
            go("L", ";")?; go("(ILa", "b;J)[La;")?;
            if c < 0x3000 || c & 0xFF00 == 0xFF00 || (0xD800..0xE000).contains(&c) || ctx.thorough() { for (a, b) in [("", ""), ("[", ""), ("(", ")V"), ("()", ""), ("I", ""), ("(I", ""), ("La;", ""), ("[[", "I"), ("()L", ""), ("(L", ";)V"), ("()V", "")] { go(a, b)?; } }
        }
        ctx.more(0x3FF); Ok(k as u64)
    }));
    // every length
    par(520, |n| ctx.case(|| format!("lengths of {n}"), || {
        let nm = vec!['n' as u16; n];
        judge(ctx, &cat(&[&u16s("L"), &nm, &u16s(";")]))?; judge(ctx, &cat(&[&u16s("L"), &nm]))?; judge(ctx, &cat(&[&u16s("(L"), &nm, &u16s(";I)V")]))?;
        judge(ctx, &cat(&[&u16s("L"), &u16s("p/").repeat(n), &u16s("q;")]))?; judge(ctx, &cat(&[&u16s("L"), &vec![0xE9; n], &vec![0xD800; n], &u16s(";")]))?;
        if n <= 256 { for x in ["I", "La;", "Lp/q;", "Lé;", "V", ""] { judge(ctx, &cat(&[&vec!['[' as u16; n], &u16s(x)]))?; judge(ctx, &cat(&[&u16s("("), &vec!['[' as u16; n], &u16s(x), &u16s(")"), &vec!['[' as u16; n], &u16s(x)]))?; } }
        if n <= 255 { for (x, w) in [("I", 1), ("La;", 1), ("J", 2), ("[J", 1)] { if n * w <= 255 { for r in ["V", "I", "La;", "", "VV"] { judge(ctx, &cat(&[&u16s("("), &u16s(x).repeat(n), &u16s(")"), &u16s(r)]))?; } } } }
        ctx.more(60); Ok(n as u64)
    }));
    // constructors
    for f in &base { ctx.case(|| format!("constructors over {:?}", S(f.clone())), || {
        let t = conc::ty(&S(f.clone()));
        for d in [1u8, 2, 255] { let x = Type::array(d, t.clone()); let text = cat(&[&vec!['[' as u16; d as usize], f]); value(ctx, &x, &text)?; if x != conc::ty(&S(text)) { return Err(format!("Type::array({d}) is {x:?}")) } }
        for (a, b) in [(1u8, 1u8), (1, 2), (2, 1), (100, 155), (1, 254), (254, 1)] { let x = Type::array(a, Type::array(b, t.clone())); let text = cat(&[&vec!['[' as u16; a as usize + b as usize], f]); value(ctx, &x, &text)?; if x != conc::ty(&S(text)) { return Err(format!("nested Type::array({a}, {b}) is {x:?}")) } }
        for r in [None, Some(Type::Int), Some(t.clone())] { for n in 0..3 { let x = Type::method(vec![t.clone(); n], r.clone()); let rt = match &r { None => u16s("V"), Some(Type::Int) => u16s("I"), _ => f.clone() }; let text = cat(&[&u16s("("), &f.repeat(n), &u16s(")"), &rt]); value(ctx, &x, &text)?; if x.as_method().map(|(p, q)| (p.len(), q.is_some())) != Some((n, r.is_some())) { return Err("as_method".into()) } } }
        Ok(0)
    }) }
    ctx.finish("model_checking")
}

// ------------------------------------------------------------------ C12
/// Independent parser of JVMS 4.7.9.1 over chars; every function returns all parses as (end, tree).
struct P<'a> { c: &'a [char] }
type Ps = Vec<(usize, V)>;
fn st(c: &[char]) -> V { s(&c.iter().collect::<String>()) }
impl P<'_> {
    fn ident(&self, p: usize) -> Option<usize> { let n = self.c[p.min(self.c.len())..].iter().take_while(|x| !".;[/<>:".contains(**x)).count(); if n == 0 { None } else { Some(p + n) } }
    fn is(&self, p: usize, c: char) -> bool { self.c.get(p) == Some(&c) }
    fn java(&self, p: usize) -> Ps { match self.c.get(p) { Some(c) if "BCDFIJSZ".contains(*c) => vec![(p + 1, N("prim", vec![st(&[*c])]))], _ => self.refty(p) } }
    fn refty(&self, p: usize) -> Ps {
        match self.c.get(p) {
            Some('L') => self.class(p),
            Some('T') => match self.ident(p + 1) { Some(e) if self.is(e, ';') => vec![(e + 1, N("var", vec![st(&self.c[p + 1..e])]))], _ => vec![] },
            Some('[') => { let d = self.c[p..].iter().take_while(|x| **x == '[').count(); if d > 255 { return vec![] } self.java(p + d).into_iter().map(|(e, t)| (e, N("arr", vec![I(d as i64), t]))).collect() }
            _ => vec![],
        }
    }
    fn class(&self, p: usize) -> Ps {
        if !self.is(p, 'L') { return vec![] }
        let mut q = p + 1; let mut pk = vec![];
        loop { match self.ident(q) { None => return vec![], Some(e) if self.is(e, '/') => { pk.push(st(&self.c[q..e])); q = e + 1 } Some(_) => break } }
        let mut cur: Vec<(usize, Vec<V>)> = self.simple(q).into_iter().map(|(e, t)| (e, vec![t])).collect(); let mut out = vec![];
        while let Some((e, v)) = cur.pop() {
            if self.is(e, ';') { out.push((e + 1, N("class", vec![L(pk.clone()), v[0].clone(), L(v[1..].to_vec())]))) }
            if self.is(e, '.') { for (e2, t) in self.simple(e + 1) { let mut w = v.clone(); w.push(t); cur.push((e2, w)) } }
        }
        out
    }
    fn simple(&self, p: usize) -> Ps {
        let Some(e) = self.ident(p) else { return vec![] };
        let name = st(&self.c[p..e]);
        if !self.is(e, '<') { return vec![(e, N("simple", vec![name, L(vec![])]))] }
        self.many1(e + 1, '>', &|q| self.arg(q)).into_iter().map(|(e, v)| (e, N("simple", vec![name.clone(), L(v)]))).collect()
    }
    fn arg(&self, p: usize) -> Ps {
        match self.c.get(p) { Some('*') => vec![(p + 1, N("any", vec![]))], Some('+') => self.refty(p + 1).into_iter().map(|(e, t)| (e, N("ext", vec![t]))).collect(), Some('-') => self.refty(p + 1).into_iter().map(|(e, t)| (e, N("sup", vec![t]))).collect(), _ => self.refty(p).into_iter().map(|(e, t)| (e, N("exact", vec![t]))).collect() }
    }
    fn many1(&self, p: usize, close: char, f: &dyn Fn(usize) -> Ps) -> Vec<(usize, Vec<V>)> {
        let mut cur = vec![(p, vec![])]; let mut out = vec![];
        while let Some((q, v)) = cur.pop() { for (e, t) in f(q) { let mut w: Vec<V> = v.clone(); w.push(t); if self.is(e, close) { out.push((e + 1, w.clone())) } cur.push((e, w)) } }
        out
    }
    fn many(&self, p: usize, f: &dyn Fn(usize) -> Ps) -> Vec<(usize, Vec<V>)> {
        let mut cur = vec![(p, vec![])]; let mut out = vec![];
        while let Some((q, v)) = cur.pop() { for (e, t) in f(q) { let mut w: Vec<V> = v.clone(); w.push(t); cur.push((e, w)) } out.push((q, v)) }
        out
    }
    fn tparam(&self, p: usize) -> Ps {
        let Some(e) = self.ident(p) else { return vec![] };
        if !self.is(e, ':') { return vec![] }
        let name = st(&self.c[p..e]);
        let mut starts: Vec<(usize, V)> = vec![(e + 1, none())]; starts.extend(self.refty(e + 1));
        let mut out = vec![];
        for (q, b) in starts { for (r, v) in self.many(q, &|x| if self.is(x, ':') { self.refty(x + 1) } else { vec![] }) { out.push((r, N("tp", vec![name.clone(), b.clone(), L(v)]))) } }
        out
    }
    fn tparams(&self, p: usize) -> Vec<(usize, Vec<V>)> { if self.is(p, '<') { self.many1(p + 1, '>', &|q| self.tparam(q)) } else { vec![(p, vec![])] } }
    fn throws(&self, p: usize) -> Ps { if !self.is(p, '^') { return vec![] } self.refty(p + 1).into_iter().filter(|(_, t)| t.name() != "arr").map(|(e, t)| (e, N("throws", vec![t]))).collect() }
    fn classsig(&self) -> Ps {
        let mut out = vec![];
        for (p, tp) in self.tparams(0) { for (q, sup) in self.class(p) { for (r, i) in self.many(q, &|x| self.class(x)) { out.push((r, N("csig", vec![L(tp.clone()), sup.clone(), L(i)]))) } } }
        out
    }
    fn methodsig(&self) -> Ps {
        let mut out = vec![];
        for (p, tp) in self.tparams(0) { if !self.is(p, '(') { continue } for (q, ps) in self.many(p + 1, &|x| self.java(x)) { if !self.is(q, ')') { continue }
            let rets = if self.is(q + 1, 'V') { vec![(q + 2, none())] } else { self.java(q + 1) };
            for (r, ret) in rets { for (z, th) in self.many(r, &|x| self.throws(x)) { out.push((z, N("msig", vec![L(tp.clone()), L(ps.clone()), ret.clone(), L(th)]))) } } } }
        out
    }
    fn full(&self, v: Ps) -> Vec<V> { let mut o: Vec<V> = v.into_iter().filter(|(e, _)| *e == self.c.len()).map(|(_, t)| t).collect(); o.sort(); o.dedup(); o }
}
type Cs = Cow<'static, str>;
fn cs(v: &V) -> Cs { String::from_utf16(v.st()).unwrap().into() }
// model tree -> coffer value
fn k_type(v: &V) -> TypeSignature { if v.name() == "prim" { use TypeSignature::*; match v.at(0).st()[0] as u8 { b'B' => Byte, b'C' => Char, b'D' => Double, b'F' => Float, b'I' => Int, b'J' => Long, b'S' => Short, _ => Boolean } } else { TypeSignature::Ref(k_ref(v)) } }
fn k_ref(v: &V) -> RefTypeSignature { match v.name() { "var" => RefTypeSignature::TypeVariable(cs(v.at(0))), "arr" => RefTypeSignature::ArrayRef(v.at(0).i() as u8, Box::new(k_type(v.at(1)))), _ => RefTypeSignature::ClassType(k_class(v)) } }
fn k_class(v: &V) -> ClassTypeSignature { ClassTypeSignature { package: v.at(0).l().iter().map(cs).collect(), name: k_simple(v.at(1)), suffix: v.at(2).l().iter().map(k_simple).collect() } }
fn k_simple(v: &V) -> SimpleClassTypeSignature { SimpleClassTypeSignature { name: cs(v.at(0)), type_arguments: v.at(1).l().iter().map(|a| match a.name() { "any" => TypeArgument::Any, "ext" => TypeArgument::Extends(k_ref(a.at(0))), "sup" => TypeArgument::Super(k_ref(a.at(0))), _ => TypeArgument::Exact(k_ref(a.at(0))) }).collect() } }
fn k_tp(v: &V) -> TypeParameter { TypeParameter { name: cs(v.at(0)), class_bound: v.at(1).opt().map(k_ref), interface_bounds: v.at(2).l().iter().map(k_ref).collect() } }
fn k_throws(v: &V) -> Throws { if v.at(0).name() == "var" { Throws::TypeParameter(cs(v.at(0).at(0))) } else { Throws::Class(k_class(v.at(0))) } }
fn k_csig(v: &V) -> ClassSignature { ClassSignature { type_parameters: v.at(0).l().iter().map(k_tp).collect(), super_class: k_class(v.at(1)), interfaces: v.at(2).l().iter().map(k_class).collect() } }
fn k_msig(v: &V) -> MethodSignature { MethodSignature { type_parameters: v.at(0).l().iter().map(k_tp).collect(), parameters: v.at(1).l().iter().map(k_type).collect(), return_type: v.at(2).opt().map(k_type), throws: v.at(3).l().iter().map(k_throws).collect() } }
fn pool_read<T: ConstantPoolReadWrite>(t: &str) -> Result<T, coffer::Error> { let mut cp = MapCp::new(); cp.entries.insert(1, RawConstantEntry::WTF8(conc::ws(&s(t)))); T::read_from(&mut cp, &mut &[0u8, 1][..]) }
/// One text under one of the signature types. `want`: the parses the grammar allows.
fn one<T: FromStr<Err = coffer::Error> + Display + Debug + PartialEq + ConstantPoolReadWrite>(ctx: &Ctx, ty: &str, t: &str, want: &[T], deep: bool, full: bool) -> Result<bool, String> {
    let r = guard(|| t.parse::<T>()).map_err(|e| format!("{ty} {t:?}: {e}"))?;
    ctx.steps(1);
    match r {
        Err(e) => { if !want.is_empty() && !deep { return Err(format!("{ty} {t:?} is well-formed but rejected: {e}")) } if full { if let Ok(x) = pool_read::<T>(t) { return Err(format!("{ty} {t:?} is rejected as text but read from the pool as {x:?}")) } } Ok(false) }
        Ok(x) => {
            if want.is_empty() { return Err(format!("{ty} {t:?} is malformed but accepted as {x:?}")) }
            if !want.contains(&x) { return Err(format!("{ty} {t:?} parsed as {x:?} instead of {:?}", want[0])) }
            if x.to_string() != t { return Err(format!("{ty} {t:?} prints as {x}")) }
            for w in want { if w.to_string() != t { return Err(format!("{ty} value {w:?} prints as {w} instead of {t:?}")) } }
            if pool_read::<T>(t).map_err(|e| format!("{ty} {t:?} from the pool: {e}"))? != x { return Err(format!("{ty} {t:?} read from the pool is another value")) }
            let mut cp = abs::RecCp::default(); let mut b = vec![];
            x.write_to(&mut cp, &mut b).map_err(|e| e.to_string())?;
            if b != [0, 1] || !matches!(&cp.e[..], [RawConstantEntry::WTF8(y)] if abs::ws(y) == s(t)) { return Err(format!("{ty} {t:?} written to the pool as {:?}", cp.e)) }
            ctx.steps(3);
            Ok(true)
        }
    }
}
fn all_types(ctx: &Ctx, t: &str, full: bool) -> Result<u64, String> {
    let c: Vec<char> = t.chars().collect(); let p = P { c: &c };
    let mut depth = 0i64; let mut max = 0; for x in &c { if *x == '<' { depth += 1; max = max.max(depth) } else if *x == '>' { depth -= 1 } }
    let deep = max > 255;
    let mut n = 0u64;
    let v = |x: Ps| p.full(x);
    macro_rules! go { ($bit:expr, $ty:ty, $ps:expr, $k:expr) => { { let w: Vec<$ty> = v($ps).iter().map($k).collect(); if one::<$ty>(ctx, stringify!($ty), t, &w, deep, full)? { n |= 1 << $bit } } } }
    go!(0, ClassSignature, p.classsig(), k_csig); go!(1, MethodSignature, p.methodsig(), k_msig); go!(2, RefTypeSignature, p.refty(0), k_ref);
    go!(4, TypeSignature, p.java(0), k_type);
    if full {
        go!(3, ClassTypeSignature, p.class(0), k_class); go!(5, SimpleClassTypeSignature, p.simple(0), k_simple);
        go!(6, Throws, p.throws(0), k_throws); go!(7, TypeParameter, p.tparam(0), k_tp);
    }
    // FieldSignature is a reference type signature
    let r = guard(|| t.parse::<FieldSignature>()).map_err(|e| format!("FieldSignature {t:?}: {e}"))?;
    match r { Ok(f) => { if n >> 2 & 1 == 0 { return Err(format!("FieldSignature {t:?} accepted")) } if f.to_string() != t { return Err(format!("FieldSignature {t:?} prints as {f}")) } } Err(e) => if n >> 2 & 1 == 1 { return Err(format!("FieldSignature {t:?} rejected: {e}")) } }
    Ok(if n == 0 { 0 } else { hash_of(&(t, n)) })
}
pub fn c12(ctx: &'static Ctx) -> i32 {
    ctx.rule("every text over the signature alphabet up to the stated length under every signature type; every signature of a bounded grammar and every one-character edit; oracle: nondeterministic grammar parser returning all parses; distinct: accepted (text, types)");
    ctx.assume("an identifier is a non-empty run of characters other than . ; [ / < > : (JVMS 4.7.9.1); where the grammar allows two parses either is accepted");
    let al: Vec<char> = "LTa;<>:*+-[./IV()^".chars().collect();
    let len = ctx.pick(5, 6);
    ctx.note("alphabet", al.len()); ctx.note("text length", len);
    let block = 8192usize;
    let run = |prefix: &str, suffix: &str, l: usize| {
        let total = al.len().pow(l as u32);
        par(total.div_ceil(block), |b| {
            let mut w = vec![];
            ctx.case(|| format!("texts {prefix}...{suffix} of free length {l} from {}", b * block), || {
                for k in b * block..((b + 1) * block).min(total) { word(k, l, &al, &mut w); let t: String = prefix.chars().chain(w.iter().copied()).chain(suffix.chars()).collect(); let h = all_types(ctx, &t, prefix.is_empty())?; if h != 0 { ctx.outcome(h) } }
                ctx.more((block.min(total - b * block) - 1) as u64);
                Ok(hash_of(&(b, l, prefix, suffix)))
            });
        });
    };
    for l in 0..=len { run("", "", l) }
    // free text inside fixed frames reaches deeper structures
    let frames = [("La<", ">;"), ("<a:", ">La;"), ("<a:", ">()V"), ("(", ")V"), ("()V", ""), ("La", ";La;"), ("L", ";"), ("()", "^Ta;"), ("<", ">La;"), ("<a:La;:", ";>La;"), ("<a:Ta;", ">()I")];
    for (a, b) in frames { for l in 0..=ctx.pick(4, 5) { run(a, b, l) } }
    // short texts of look-alikes: characters whose low bits are those of syntax
    let alw: Vec<char> = "LTa;<:*[./(".chars().chain("LT;<>:*+-[./I(^".chars().map(|c| char::from_u32(c as u32 + 0x100).unwrap())).chain(['\u{C0}', '\u{1004C}', '\u{10028}', '\u{203A}']).collect();
    ctx.note("wide alphabet", alw.len());
    for l in 1..=3 { let total = alw.len().pow(l as u32); par(total.div_ceil(512), |b| { let mut w = vec![]; ctx.case(|| format!("wide texts of length {l} from {}", b * 512), || { for k in b * 512..((b + 1) * 512).min(total) { word(k, l, &alw, &mut w); let t: String = w.iter().collect(); let h = all_types(ctx, &t, true)?; if h != 0 { ctx.outcome(h) } } ctx.more(511); Ok(b as u64) }) }) }
    // grammar
    let mut refs: Vec<String> = ["Ta;", "TL;", "La;", "Lp/q/a;", "La.b;", "La.b.c;", "[I", "[[Ta;", "[La;", "Lé日\u{10000};", "La(;", "L*;", "TT;"].iter().map(|x| x.to_string()).collect();
    let args0: Vec<String> = { let mut v = vec!["*".to_string()]; for r in &refs { for w in ["", "+", "-"] { v.push(format!("{w}{r}")) } } v };
    for a in &args0 { refs.push(format!("La<{a}>;")); refs.push(format!("Lp/a<{a}>.b<*>;")); refs.push(format!("La.b<{a}>;")) }
    for a in args0.iter() { for b in &args0 { refs.push(format!("La<{a}{b}>;")) } }
    let lvl1: Vec<String> = refs.iter().skip(13).step_by(ctx.pick(3, 1)).cloned().collect();
    for r in &lvl1 { for w in ["", "+", "-"] { refs.push(format!("Lx<{w}{r}>;")); refs.push(format!("Lx<*>.y<{w}[{r}>;")) } }
    ctx.note("reference signatures", refs.len());
    let few: Vec<&String> = refs.iter().step_by((refs.len() / ctx.pick(48, 80)).max(1)).collect();
    let classes: Vec<&String> = few.iter().filter(|x| x.starts_with('L')).copied().collect();
    let mut tps: Vec<String> = vec!["a:".into(), "T::La;".into(), "L:La;".into(), "b::Ta;:La;".into(), "a:[I".into()];
    for r in &few { tps.push(format!("T:{r}")); tps.push(format!("T::{r}")); tps.push(format!("T:La;:{r}")) }
    let mut texts: Vec<String> = refs.clone();
    for t in &tps { texts.push(format!("<{t}>La;")); texts.push(format!("<{t}>()V")); for u in tps.iter() { texts.push(format!("<{t}{u}>La;")); texts.push(format!("<{t}{u}>(T{};)V", 'a')); } }
    for a in &classes { for b in &classes { texts.push(format!("{a}{b}")); texts.push(format!("(){a}^{b}")); texts.push(format!("()V^{a}^Ta;^{b}")); texts.push(format!("<T:{a}>{b}{a}{b}")) } }
    for a in &few { texts.push(format!("({a})V")); texts.push(format!("(){a}")); texts.push(format!("(I{a}J{a}){a}^Tz;")); for p in "BCDFIJSZ".chars() { texts.push(format!("({p}{a}){p}")); texts.push(format!("[{p}")); texts.push(p.to_string()) } }
    texts.sort(); texts.dedup();
    ctx.note("grammar texts", texts.len());
    let edits: Vec<char> = "LT;<>:*+[./IV()^".chars().collect();
    par(texts.len(), |k| ctx.case(|| format!("{} and its edits", texts[k]), || {
        let t = &texts[k]; ctx.state(hash_of(t));
        let h = all_types(ctx, t, true)?;
        if h == 0 { return Err("no signature type accepts it".into()) }
        let c: Vec<char> = t.chars().collect(); let mut n = 0;
        // edit the shorter texts
        if c.len() > ctx.pick(16, 20) { return Ok(h) }
        for p in 0..=c.len() {
            for x in &edits { let mut e = c.clone(); e.insert(p, *x); all_types(ctx, &e.iter().collect::<String>(), false)?; n += 1; if p < c.len() { let mut e = c.clone(); e[p] = *x; all_types(ctx, &e.iter().collect::<String>(), false)?; n += 1 } }
            for x in ["La;", "Ta;", "[I", "<*>", ".b", "p/", "^La;", ":La;", "()V", "<La;>", "<a:>", "V^", "+Ta;", "*>", ";La"] { let e: String = c[..p].iter().collect::<String>() + x + &c[p..].iter().collect::<String>(); all_types(ctx, &e, false)?; n += 1 }
            // characters of two to four bytes that share their low bits with the one they replace, or are put beside it
            if p < c.len() { for x in [0x80u32, 0x100, 0x2000, 0x10000] { let Some(x) = char::from_u32(c[p] as u32 + x) else { continue }; let mut e = c.clone(); e[p] = x; all_types(ctx, &e.iter().collect::<String>(), true)?; let mut e = c.clone(); e.insert(p, x); all_types(ctx, &e.iter().collect::<String>(), true)?; n += 2 } }
            if p < c.len() { let mut e = c.clone(); e.remove(p); all_types(ctx, &e.iter().collect::<String>(), false)?; all_types(ctx, &c[..p].iter().collect::<String>(), false)?; n += 2 }
        }
        ctx.more(n);
        Ok(h)
    }));
    // every code point in every kind of place
    par(0x110000 / 0x400, |k| ctx.case(|| format!("code points from {:#x}", k * 0x400), || {
        for c in k as u32 * 0x400..(k as u32 + 1) * 0x400 {
            let Some(c) = char::from_u32(c) else { continue };
            all_types(ctx, &format!("Lp{c}/a{c}b.{c}d<T{c};>;"), false)?; all_types(ctx, &format!("<{c}:>(T{c};)V^T{c};"), false)?;
            if (c as u32) < 0x3000 || c as u32 & 0xFF00 == 0xFF00 || ctx.thorough() { for (a, b) in [("", ""), ("L", ";"), ("L", "/a;"), ("La.", ";"), ("La", "b;"), ("T", ";"), ("Ta", "b;"), ("[", ""), ("(", ")V"), ("()", ""), ("()V", ""), ("()V^", "La;"), ("La<", ">;"), ("La<", "La;>;"), ("<", ":>La;"), ("<a", ":La;>La;"), ("<a:La;", ">La;"), ("<a:", "La;>La;"), ("La;", "Lb;"), ("La", ""), ("La;", "")] { all_types(ctx, &format!("{a}{c}{b}"), false)?; } }
        }
        ctx.more(0x3FF); Ok(k as u64)
    }));
    // nesting of every depth in every shape, on a stack of ordinary size
    let shapes = [("La<", ">;"), ("La<Tb;", ">;"), ("La<*", ">;"), ("La<+", ">;"), ("La<-[", ">;"), ("Lp/a.b<", ">;"), ("La<*>.b<", ">;"), ("La<", "Tb;>;"), ("La<", ">.c;"), ("La<Lx<*>;", ">;"), ("La<[[", "*Lx<*>;>;")];
    let outer = [("", ""), ("(", ")V"), ("()", ""), ("()V^", ""), ("<t:", ">La;"), ("<t::", ">()V"), ("La;", ""), ("(I", "J)[I^Tz;")];
    let depths: Vec<usize> = (1..=250).chain(260..=270).chain([511, 512, 513, 1000, 10_000, 70_000]).collect();
    ctx.note("nesting", format!("{} shapes in {} places at {} depths", shapes.len(), outer.len(), depths.len()));
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..threads() { let (shapes, outer, depths, next) = (&shapes, &outer, &depths, &next); std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || loop {
        let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed); if k >= shapes.len() * depths.len() { break }
        let ((a, b), d) = (shapes[k / depths.len()], depths[k % depths.len()]);
        for (x, y) in outer { ctx.case(|| format!("{x:?} {a:?}...{b:?} {y:?} nested {d} deep"), || {
            let t = format!("{x}{}La;{}{y}", a.repeat(d), b.repeat(d));
            fn go<T: FromStr<Err = coffer::Error> + Display>(t: &str, fits: bool, d: usize) -> Result<(), String> {
                match guard(|| t.parse::<T>().map(|v| v.to_string()))? { Ok(v) => if !fits { return Err("accepted".into()) } else if d > 255 { return Err("accepted although nested too deeply".into()) } else if v != t { return Err(format!("prints as {v}")) }, Err(e) => if fits && d <= 255 { return Err(format!("rejected: {e}")) } } Ok(())
            }
            let f = |i: usize| match (*x, i) { ("", 0) => true, ("La;", 0) | ("<t:", 0) => true, ("", 2) => true, ("(" | "()" | "()V^" | "<t::" | "(I", 1) => true, _ => false };
            go::<ClassSignature>(&t, f(0), d)?; go::<MethodSignature>(&t, f(1), d)?; go::<RefTypeSignature>(&t, f(2), d)?; go::<TypeSignature>(&t, f(2), d)?; go::<FieldSignature>(&t, f(2), d)?; go::<ClassTypeSignature>(&t, f(2), d)?;
            ctx.steps(6); Ok(hash_of(&t.len()))
        }) }
    }).unwrap(); });
    // every length
    par(ctx.pick(300, 700), |n| ctx.case(|| format!("lengths of {n}"), || {
        for t in [format!("L{};", "n".repeat(n)), format!("T{};", "n".repeat(n)), format!("L{}a;", "p/".repeat(n)), format!("L{}/a;", "p".repeat(n)), format!("La{};", ".b".repeat(n)), format!("La.{};", "b".repeat(n)), format!("<{}:>La;", "t".repeat(n)), format!("<t:{}>La;", ":La;".repeat(n)), format!("L{};", "é日".repeat(n)),
            format!("({})V", "I".repeat(n)), format!("({})V", "La;".repeat(n)), format!("()V{}", "^Ta;".repeat(n)), format!("()V{}", "^La;".repeat(n)), format!("La;{}", "Lb;".repeat(n)), format!("La<{}>;", "*".repeat(n)), format!("La<{}>;", "Ta;".repeat(n)), format!("La<{}>;", "+[I".repeat(n)), format!("La{};", ".b<*>".repeat(n))] { all_types(ctx, &t, true)?; }
        let tp = format!("<{}>La;", "t:La;".repeat(n)); all_types(ctx, &tp, true)?;
        if n <= 256 { for e in ["Ta;", "Lp/a<*>.b;", "B", "C", "D", "F", "I", "J", "S", "Z", "V"] { let t = "[".repeat(n) + e; for (a, b) in [("", ""), ("(", ")V"), ("()", ""), ("La<", ">;"), ("La<+", ">;"), ("<t:", ">La;"), ("<t::", ">()V"), ("()V^", "")] { let h = all_types(ctx, &format!("{a}{t}{b}"), a.is_empty())?; if a.is_empty() && (h != 0) != (n <= 255 && e != "V") { if n != 0 { return Err(format!("{n} dimensions of {e}")) } } } } }
        if n <= 256 { let h = all_types(ctx, &("[".repeat(n) + "La;"), true)?; if (h != 0) != (n <= 255) { return Err(format!("{n} dimensions")) } }
        ctx.more(20); Ok(n as u64)
    }));
    for d in [1usize, 2, 100, 200, 253, 254, 255, 256, 300] {
        let arr = "[".repeat(d) + "I"; ctx.case(|| format!("array of {d} dimensions"), || { let h = all_types(ctx, &arr, true)?; if (h != 0) != (d <= 255) { return Err("limit".into()) } Ok(h) });
        if d <= 100 { let nest = format!("{}La;{}", "La<".repeat(d), ">;".repeat(d)); ctx.case(|| format!("{d} nested type arguments"), || all_types(ctx, &nest, true)) }
        else { let nest = format!("{}La;{}", "La<".repeat(d), ">;".repeat(d)); ctx.case(|| format!("{d} nested type arguments"), || { let r = guard(|| nest.parse::<RefTypeSignature>())?; match r { Ok(x) => if x.to_string() != nest { return Err("prints differently".into()) }, Err(e) => if d <= 255 { return Err(format!("rejected: {e}")) } } Ok(d as u64) }) }
        let suf = format!("La{};", ".b".repeat(d)); ctx.case(|| format!("{d} inner classes"), || all_types(ctx, &suf, true));
        let many = format!("({})V", "I".repeat(d)); ctx.case(|| format!("{d} parameters"), || all_types(ctx, &many, true));
        let pk = format!("L{}a;", "p/".repeat(d)); ctx.case(|| format!("{d} packages"), || all_types(ctx, &pk, true));
    }
    ctx.finish("model_checking")
}
