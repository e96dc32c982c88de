//! C20 attribute framing, C21 annotations.
use super::c01::{read, same, write};
use crate::engine::*;
use crate::parse::{self, Pool, Rd};
use crate::raw::{self, u2, u4, RawPool};
use crate::v::*;
use crate::{abs, conc, enc, gen};

/// An attribute found in a class file: where its header is, how long it says it is, and the length field of the Code attribute around it.
struct At { loc: char, name: String, hdr: usize, len: usize, outer: Option<usize> }
fn walk(b: &[u8]) -> Result<Vec<At>, String> {
    let mut r = Rd::new(b); r.take(8)?;
    let p = Pool::parse(&mut r)?;
    r.take(6)?; let n = r.u2()?; r.take(2 * n as usize)?;
    let mut out = vec![];
    fn list(r: &mut Rd, p: &Pool, loc: char, outer: Option<usize>, out: &mut Vec<At>) -> Result<(), String> {
        for _ in 0..r.u2()? {
            let hdr = r.p; let name = String::from_utf16_lossy(&p.utf8(r.u2()?)?); let len = r.u4()? as usize; let start = r.p;
            if loc == 'm' && name == "Code" { r.take(4)?; let n = r.u4()?; r.take(n as usize)?; let h = r.u2()?; r.take(8 * h as usize)?; list(r, p, 'k', Some(hdr + 2), out)?; if r.p != start + len { return Err("Code length".into()) } } else { r.take(len)?; }
            out.push(At { loc, name, hdr, len, outer });
        }
        Ok(())
    }
    for loc in ['f', 'm'] { for _ in 0..r.u2()? { r.take(6)?; list(&mut r, &p, loc, None, &mut out)? } }
    list(&mut r, &p, 'c', None, &mut out)?; r.end()?;
    Ok(out)
}
const CLASS: [&str; 17] = ["Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const FIELD: [&str; 8] = ["Deprecated", "Synthetic", "Signature", "ConstantValue", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
const METHOD: [&str; 13] = ["Code", "Deprecated", "Synthetic", "Signature", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "Exceptions", "AnnotationDefault", "MethodParameters"];
const CODE: [&str; 6] = ["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
fn known(loc: char) -> &'static [&'static str] { match loc { 'c' => &CLASS, 'f' => &FIELD, 'm' => &METHOD, _ => &CODE } }
/// Attributes whose content has no structure of its own.
fn blob(a: &At) -> bool { !known(a.loc).contains(&a.name.as_str()) || a.name == "SourceDebugExtension" }
fn counted(n: &str) -> Option<usize> { match n { "MethodParameters" | "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => Some(1), "InnerClasses" | "NestMembers" | "ModulePackages" | "Exceptions" | "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "StackMapTable" | "BootstrapMethods" | "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" | "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => Some(2), _ => None } }
fn codes() -> Vec<V> {
    let mut v = gen::codes();
    let t = |t: Vec<V>| gen::tann(t, L(vec![L(vec![I(3), I(1)])]), "LT;", vec![gen::pair("v", gen::ev('s', vec![s("x")]))]);
    v.push(gen::codev(vec![gen::opn(0), gen::jmp(153, 0), gen::ret()], vec![N("h", vec![I(0), I(1), I(2), s("E")])], vec![L(vec![I(0), I(1)]), L(vec![I(1), I(2)])], vec![L(vec![I(0), I(3), s("x"), s("I"), I(0)])], vec![L(vec![I(0), I(3), s("x"), s("TT;"), I(0)])],
        vec![gen::raws()[2].clone(), N("RVTA", vec![L(vec![t(vec![I(0x44), I(1)]), t(vec![I(0x47), I(0), I(3)])])]), N("RITA", vec![L(vec![t(vec![I(0x40), L(vec![L(vec![I(0), I(2), I(1)])])])])])]));
    v
}
fn hosts() -> Vec<V> {
    let mut v = vec![];
    for a in gen::class_attrs() { v.push(gen::wrap_class(vec![a.clone()])); v.push(gen::wrap_class(vec![gen::raws()[1].clone(), a, N("Deprecated", vec![]), gen::raws()[0].clone()])) }
    for a in gen::field_attrs() { v.push(gen::wrap_field(vec![a.clone()])); v.push(gen::wrap_field(vec![gen::raws()[1].clone(), a, N("Deprecated", vec![]), gen::raws()[0].clone()])) }
    for a in gen::method_attrs() { v.push(gen::wrap_method(vec![a.clone()])); v.push(gen::wrap_method(vec![gen::raws()[1].clone(), a, N("Deprecated", vec![]), gen::raws()[0].clone()])) }
    for c in codes() { v.push(gen::wrap_code(c)) }
    v
}
fn lengths(ctx: &Ctx) {
    let hs = hosts();
    ctx.tag_n("host classes", hs.len() as u64);
    par(hs.len() * 2, |k| {
        let v = &hs[k / 2]; let b = enc::encode(v, &enc::Ch { frames: k % 2 == 1, split: k % 2 == 1, ..Default::default() });
        ctx.state(fnv(&b));
        let ats = match walk(&b) { Ok(x) => x, Err(e) => { ctx.case(|| format!("{v:?}"), || Err(format!("MODEL: {e}"))); return } };
        let judge = |what: &dyn Fn() -> String, f: &[u8], must_fail: bool| ctx.case(|| format!("{} in {v:?}", what()), || { ctx.steps(1); match (read(f), must_fail) {
            (Ok(_), true) => Err(format!("accepted: {}", clip(&hex(f)))),
            (Err(_), true) => Ok(0),
            (r, false) => match parse::parse_class(f) { Ok(p) => { same("read as", &p, &abs::class(&r.map_err(|e| format!("valid file rejected: {e}"))?)?)?; Ok(fnv(f)) } Err(_) => Ok(1) },
        } });
        for a in &ats {
            let l0 = a.hdr + 2; let body = a.hdr + 6;
            ctx.tag_n(&format!("{} in {}", if blob(a) { "unknown" } else { &a.name }, a.loc), 1);
            // the length alone is wrong
            let mut ls: Vec<u32> = (0..=(a.len + ctx.pick(12, 40)) as u32).collect(); ls.extend([255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, a.len as u32 | 0x10000, a.len as u32 | 0x1000000, a.len as u32 | 0x80000000]);
            for l in ls { if l as usize == a.len { continue } let mut f = b.clone(); f[l0..l0 + 4].copy_from_slice(&u4(l)); judge(&|| format!("{} length {} said to be {l}", a.name, a.len), &f, !blob(a)) }
            // the content is longer or shorter than its structure says
            let patch = |cut: usize, add: &[u8]| { let mut f = b[..body + a.len - cut].to_vec(); f.extend_from_slice(add); f.extend_from_slice(&b[body + a.len..]); let d = add.len() as i64 - cut as i64; f[l0..l0 + 4].copy_from_slice(&u4((a.len as i64 + d) as u32)); if let Some(o) = a.outer { let l = u32::from_be_bytes(f[o..o + 4].try_into().unwrap()); f[o..o + 4].copy_from_slice(&u4((l as i64 + d) as u32)) } f };
            for n in [1usize, 2, 3, 4, 6, 8, 300] { for x in [0u8, 1, b'A'] { judge(&|| format!("{} with {n} extra bytes {x}", a.name), &patch(0, &vec![x; n]), !blob(a)) } }
            for n in 1..=a.len { judge(&|| format!("{} without its last {n} bytes", a.name), &patch(n, &[]), !blob(a)) }
            // the count is wrong
            if let (false, Some(w)) = (blob(a), counted(&a.name)) {
                let old = if w == 1 { b[body] as u32 } else { (b[body] as u32) << 8 | b[body + 1] as u32 };
                for c in [old + 1, old.wrapping_sub(1), 0, 255, 256, 65535] { if c == old || c >= 1 << (8 * w) { continue } let mut f = b.clone(); if w == 1 { f[body] = c as u8 } else { f[body..body + 2].copy_from_slice(&u2(c as u16)) } judge(&|| format!("{} with count {c} instead of {old}", a.name), &f, true) }
            }
        }
    });
}
/// A class with raw attribute bytes in place `loc`.
fn file(loc: char, at: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut p = RawPool::new();
    let f: Vec<Vec<u8>> = at.iter().map(|(n, b)| raw::attr(&mut p, n, b)).collect();
    match loc { 'c' => raw::class_file(p, None, None, &f), 'f' => raw::class_file(p, Some(&f), None, &[]), 'm' => raw::class_file(p, None, Some(&f), &[]), _ => { let c = raw::attr(&mut p, "Code", &raw::code_body(&[0, 177], &[], &f)); raw::class_file(p, None, Some(&[c]), &[]) } }
}
fn unknown(ctx: &Ctx) {
    let mut names: Vec<String> = vec![];
    for l in ['c', 'f', 'm', 'k'] { for n in known(l) { for x in [n.to_string(), n.to_lowercase(), n[..n.len() - 1].to_string(), format!("{n} "), format!("{n}s"), format!(" {n}"), format!("org.{n}")] { names.push(x) } } }
    for n in ["", "X", "Record", "PermittedSubclasses", "ModuleTarget", "日", "a\u{0}", "\u{10000}"] { names.push(n.into()) }
    names.sort(); names.dedup();
    let keep = |loc: char, at: Vec<(&str, Vec<u8>)>| {
        let f = file(loc, &at);
        ctx.state(fnv(&f));
        ctx.case(|| format!("{:?} in {loc}", at.iter().map(|(n, b)| format!("{n:?} {} bytes {}", b.len(), hex(&b[..b.len().min(16)]))).collect::<Vec<_>>()), || {
            ctx.steps(2);
            let want = L(at.iter().map(|(n, b)| N("raw", vec![s(n), B(b.clone())])).collect());
            let pick = |v: &V| match loc { 'c' => v.at(8).clone(), 'f' => v.at(6).at(0).at(3).clone(), 'm' => v.at(7).at(0).at(3).clone(), _ => v.at(7).at(0).at(3).at(0).at(7).clone() };
            let c = read(&f)?;
            same("kept as", &want, &pick(&abs::class(&c)?))?;
            let w = write(&c)?;
            same("written as", &want, &pick(&parse::parse_class(&w)?))?;
            same("read again as", &want, &pick(&abs::class(&read(&w)?)?))?;
            Ok(fnv(&w))
        })
    };
    for loc in ['c', 'f', 'm', 'k'] {
        // Code in a field or class, Signature in code, and so on are unknown there
        let un: Vec<&String> = names.iter().filter(|n| !known(loc).contains(&n.as_str())).collect();
        ctx.tag_n("unknown names", un.len() as u64);
        par(un.len(), |k| { for b in [vec![], vec![0], vec![0, 1], vec![0, 0, 0, 0], vec![255; 7], (0..=255).collect::<Vec<u8>>(), b"\xCA\xFE\xBA\xBE\0\0".to_vec()] { keep(loc, vec![(un[k], b)]) } });
        let top = ctx.pick(600, 6000);
        par(top, |n| keep(loc, vec![("Custom", (0..n).map(|i| (i * 7 + n) as u8).collect())]));
        let big = [65534usize, 65535, 65536, 65537, 70000, 131072, 1 << 20, (1 << 20) + 1, (1 << 24) + 1];
        par(big.len(), |k| { keep(loc, vec![("Big", vec![0x5A; big[k]])]); keep(loc, vec![("Big", vec![1; big[k]]), ("Small", vec![2]), ("Big", vec![3; 3])]) });
        // sequences: order, repetition, neighbours
        let al: Vec<(&str, Vec<u8>)> = vec![("X", vec![]), ("X", vec![1]), ("Y", vec![0, 0, 0, 0]), ("", vec![9; 10]), ("Z", vec![0xCA; 3]), ("code", vec![0, 1, 0, 0])];
        let ix: Vec<usize> = (0..al.len()).collect();
        for n in 0..=ctx.pick(4usize, 5) { par(al.len().pow(n as u32), |k| { let mut w = vec![]; word(k, n, &ix, &mut w); keep(loc, w.iter().map(|i| al[*i].clone()).collect()) }) }
        // many of them
        for n in [255usize, 256, 300, 65535] { let at: Vec<(&str, Vec<u8>)> = (0..n).map(|i| ("N", vec![i as u8; i % 3])).collect(); keep(loc, at) }
    }
}
/// Sequences of known and unknown attributes.
fn sequences(ctx: &Ctx) {
    let go = |v: V| { ctx.state(hash_of(&v)); ctx.case(|| format!("{v:?}"), || {
        ctx.steps(2);
        let b = enc::encode(&v, &Default::default());
        let c = read(&b).map_err(|e| format!("valid file rejected: {e}"))?;
        same("read as", &v, &abs::class(&c)?)?;
        same("written as", &v, &parse::parse_class(&write(&c)?)?)?;
        Ok(fnv(&b)) }) };
    // debug extensions, source files and unknown names of all texts of two ASCII characters, and with each character at an edge
    par(128, |a| for b in 0..128u16 { let t = S(vec![a as u16, b]); go(gen::wrap_class(vec![N("SourceDebugExtension", vec![t.clone()]), N("SourceFile", vec![t.clone()]), N("raw", vec![t, B(vec![a as u8, b as u8])])])) });
    for t in crate::fam::edge_texts() { go(gen::wrap_class(vec![N("SourceDebugExtension", vec![t.clone()])])); for w in [gen::wrap_class as fn(Vec<V>) -> V, gen::wrap_field, gen::wrap_method] { go(w(vec![N("raw", vec![t.clone(), B(vec![7, 8])]), N("raw", vec![t.clone(), B(vec![])])])) } }
    let reps = |all: Vec<V>| { let mut o: Vec<V> = vec![]; for a in all { if a.name() == "raw" { continue } if let Some(x) = o.iter_mut().find(|x| x.name() == a.name()) { if a.name() != "code" { *x = a } } else { o.push(a) } } o.extend(gen::raws().into_iter().take(3)); o };
    for (wrap, al) in [(gen::wrap_class as fn(Vec<V>) -> V, reps(gen::class_attrs())), (gen::wrap_field, reps(gen::field_attrs())), (gen::wrap_method, reps(gen::method_attrs()))] {
        let ix: Vec<usize> = (0..al.len()).collect();
        for n in 0..=ctx.pick(3usize, 4) { let nn = al.len().pow(n as u32); ctx.tag_n("attribute sequences", nn as u64); par(nn, |k| { let mut w = vec![]; word(k, n, &ix, &mut w); go(wrap(w.iter().map(|i| al[*i].clone()).collect())) }) }
    }
    code_words(ctx, ctx.pick(4, 5), true);
}
pub fn code_kinds(c: &coffer::code::Code) -> Vec<String> { use coffer::prelude::CodeAttribute as A; c.attrs.iter().map(|a| match a { A::LocalVariables(_) => "variables".to_string(), A::VisibleTypeAnnotations(_) => "RuntimeVisibleTypeAnnotations".into(), A::InvisibleTypeAnnotations(_) => "RuntimeInvisibleTypeAnnotations".into(), A::Raw(r) => String::from_utf16_lossy(&abs::w16(&r.name)) }).collect() }
/// All sequences of attributes inside a Code attribute, as bytes.
pub fn code_words(ctx: &Ctx, max: usize, rewrite: bool) {
    let mut p = RawPool::new(); let (x, i, t, ann, y) = (p.utf("x"), p.utf("I"), p.utf("TT;"), p.utf("LA;"), p.utf("y"));
    let cat = |v: &[u16]| v.iter().flat_map(|x| u2(*x)).collect::<Vec<u8>>();
    let ta = |pc: u8| { let mut b = vec![0, 1, 0x44, 0, pc, 0]; b.extend(u2(ann)); b.extend([0, 0]); b };
    let al: Vec<(&str, Vec<u8>)> = vec![("LineNumberTable", cat(&[1, 0, 7])), ("LineNumberTable", cat(&[3, 1, 8, 0, 9, 1, 3])), ("LocalVariableTable", cat(&[1, 0, 2, x, i, 0])), ("LocalVariableTypeTable", cat(&[1, 0, 2, x, t, 0])), ("StackMapTable", vec![0, 1, 0]), ("StackMapTable", vec![0, 0]),
        ("RuntimeVisibleTypeAnnotations", ta(1)), ("RuntimeInvisibleTypeAnnotations", vec![0, 0]), ("RuntimeInvisibleTypeAnnotations", ta(0)), ("X", vec![]), ("Signature", vec![0, 1]), ("Code", vec![1, 2, 3]), ("LocalVariableTable", cat(&[2, 0, 2, y, i, 0, 1, 1, x, i, 0])), ("LocalVariableTypeTable", cat(&[1, 1, 1, x, t, 0])), ("LocalVariableTable", cat(&[0])), ("LocalVariableTypeTable", cat(&[0]))];
    let ix: Vec<usize> = (0..al.len()).collect();
    for n in 0..=max { par(al.len().pow(n as u32), |k| {
        let mut w = vec![]; word(k, n, &ix, &mut w);
        // each variable once
        if [2usize, 3, 12, 13].iter().any(|j| w.iter().filter(|q| *q == j).count() > 1) { return }
        // a table without entries says nothing about where variables stand
        let tables = |q: usize| al[q].0.starts_with("LocalVariable");
        if w.iter().any(|q| *q >= 14) && (n > 3 || !w.iter().any(|q| tables(*q) && *q < 14)) { return }
        let f = { let mut p = p.clone(); let fr: Vec<Vec<u8>> = w.iter().map(|i| raw::attr(&mut p, al[*i].0, &al[*i].1)).collect(); let c = raw::attr(&mut p, "Code", &raw::code_body(&[0, 177], &[], &fr)); raw::class_file(p, None, Some(&[c]), &[]) };
        ctx.state(fnv(&f));
        ctx.case(|| format!("code attributes {:?}", w.iter().map(|i| (al[*i].0, hex(&al[*i].1))).collect::<Vec<_>>()), || {
            ctx.steps(2);
            let v = parse::parse_class(&f).map_err(|e| format!("MODEL: {e}"))?; let c = read(&f)?; same("read as", &v, &abs::class(&c)?)?;
            if !rewrite { return Ok(fnv(&f)) }
            let coffer::prelude::MethodAttribute::Code(code) = &c.methods[0].attributes[0] else { return Err("no code".into()) };
            let mut want: Vec<String> = vec![];
            if !w.iter().any(|q| *q >= 14) {
                for q in &w { let n = al[*q].0; if n == "LineNumberTable" || n == "StackMapTable" { continue } let n = if tables(*q) { "variables" } else { n }; if n == "variables" && want.iter().any(|x| x == n) { continue } want.push(n.into()) }
                if code_kinds(code) != want { return Err(format!("attributes {want:?} read as {:?}", code_kinds(code))) }
            }
            let b = write(&c)?;
            same("written as", &v, &parse::parse_class(&b)?)?;
            let c2 = read(&b)?; let coffer::prelude::MethodAttribute::Code(code2) = &c2.methods[0].attributes[0] else { return Err("no code".into()) };
            if code_kinds(code) != code_kinds(code2) { return Err(format!("attributes {:?} rewritten as {:?}", code_kinds(code), code_kinds(code2))) }
            Ok(fnv(&f))
        });
    }) }
    ctx.note("code attribute sequences up to", max);
}
pub fn c20(ctx: &'static Ctx) -> i32 {
    ctx.rule("every known attribute in every container: every declared length 0..true+margin and extreme lengths; every shortening and several lengthenings of the content with all lengths made consistent; wrong counts; every known name outside its container and every near miss of a known name kept verbatim with contents of every size up to a bound; all sequences of attributes up to a length. distinct: hash of file");
    lengths(ctx); unknown(ctx); sequences(ctx);
    ctx.finish("model_checking")
}

// ---------------------------------------------------------------- C21
/// Every place an element value can stand in.
fn places() -> Vec<(&'static str, fn(V) -> V)> {
    fn a1(e: V) -> V { gen::ann("LA;", vec![gen::pair("v", e)]) }
    fn t1(t: Vec<V>, e: V) -> V { gen::tann(t, L(vec![]), "LT;", vec![gen::pair("v", e)]) }
    vec![
        ("class RVA", |e| gen::wrap_class(vec![N("RVA", vec![L(vec![a1(e)])])])), ("class RIA", |e| gen::wrap_class(vec![N("RIA", vec![L(vec![a1(e)])])])),
        ("field RVA", |e| gen::wrap_field(vec![N("RVA", vec![L(vec![a1(e)])])])), ("field RIA", |e| gen::wrap_field(vec![N("RIA", vec![L(vec![a1(e)])])])),
        ("method RVA", |e| gen::wrap_method(vec![N("RVA", vec![L(vec![a1(e)])])])), ("method RIA", |e| gen::wrap_method(vec![N("RIA", vec![L(vec![a1(e)])])])),
        ("RVPA", |e| gen::wrap_method(vec![N("RVPA", vec![L(vec![L(vec![]), L(vec![a1(e)]), L(vec![])])])])), ("RIPA", |e| gen::wrap_method(vec![N("RIPA", vec![L(vec![L(vec![a1(e), gen::ann("LB;", vec![])])])])])),
        ("default", |e| gen::wrap_method(vec![N("AnnotationDefault", vec![e])])),
        ("class RVTA", |e| gen::wrap_class(vec![N("RVTA", vec![L(vec![t1(vec![I(0x10), I(65535)], e)])])])), ("class RITA", |e| gen::wrap_class(vec![N("RITA", vec![L(vec![t1(vec![I(0), I(1)], e)])])])),
        ("field RVTA", |e| gen::wrap_field(vec![N("RVTA", vec![L(vec![t1(vec![I(0x13)], e)])])])), ("field RITA", |e| gen::wrap_field(vec![N("RITA", vec![L(vec![t1(vec![I(0x13)], e)])])])),
        ("method RVTA", |e| gen::wrap_method(vec![N("RVTA", vec![L(vec![t1(vec![I(0x14)], e)])])])), ("method RITA", |e| gen::wrap_method(vec![N("RITA", vec![L(vec![t1(vec![I(0x17), I(1)], e)])])])),
        ("code RVTA", |e| gen::wrap_code(gen::codev(vec![gen::opn(0), gen::ret()], vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![t1(vec![I(0x43), I(1)], e)])])]))),
        ("code RITA", |e| gen::wrap_code(gen::codev(vec![gen::opn(0), gen::ret()], vec![], vec![], vec![], vec![], vec![N("RITA", vec![L(vec![t1(vec![I(0x48), I(0), I(2)], e)])])]))),
    ]
}
fn leaves_of<'a>(v: &'a V, o: &mut Vec<&'a V>) { match v { S(_) => o.push(v), L(l) | N(_, l) => for x in l { leaves_of(x, o) }, _ => {} } }
pub fn both(ctx: &Ctx, v: &V) -> Result<u64, String> {
    let w = write(&conc::class(v))?; ctx.steps(3);
    same("the file says", v, &parse::parse_class(&w).map_err(|e| format!("written file malformed: {e}"))?)?;
    same("read back", v, &abs::class(&read(&w)?)?)?;
    let e = enc::encode(v, &Default::default());
    same("read from an independent encoding", v, &abs::class(&read(&e)?)?)?;
    Ok(fnv(&w))
}
pub fn c21(ctx: &'static Ctx) -> i32 {
    ctx.rule("every leaf value in every place an element value can stand in; all byte, short, char values; all nested values up to a depth; chains of arrays and annotations up to depth 200; every target type with all operand bytes, all type paths up to a length; written and parsed independently, read back, and read from an independent encoding. Reading: all 256 element tags, target types and path kinds, every constant kind behind every element tag, out-of-range integers. distinct: hash of file");
    ctx.assume("values nested more than 255 levels deep, repeated element names and method descriptors as class literals are not claimed");
    let pl = places();
    let go = |name: &str, v: V| { ctx.state(hash_of(&v)); ctx.case(|| format!("{name}: {v:?}"), || both(ctx, &v)) };
    let leaves = gen::leaf_elements();
    par(leaves.len(), |k| for (n, f) in &pl { go(n, f(leaves[k].clone())) });
    let deep = gen::elements(ctx.pick(2, 3));
    ctx.tag_n("nested values", deep.len() as u64);
    par(deep.len(), |k| for (i, (n, f)) in pl.iter().enumerate() { { let _ = i; go(n, f(deep[k].clone())) } });
    // all values of the small kinds, many per class
    for (t, lo, hi) in [('B', -128i64, 127i64), ('S', -32768, 32767), ('C', 0, 65535), ('Z', 0, 1)] {
        let all: Vec<i64> = (lo..=hi).collect(); let chunks: Vec<&[i64]> = all.chunks(512).collect();
        par(chunks.len(), |k| go("all values", pl[8].1(gen::ev('[', vec![L(chunks[k].iter().map(|x| gen::ev(t, vec![I(*x)])).collect())]))));
    }
    for x in [i32::MIN as i64, -65536, -32769, -32768, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, i32::MAX as i64] { go("int", pl[0].1(gen::ev('I', vec![I(x)]))); go("long", pl[0].1(gen::ev('J', vec![I(x)]))) }
    // chains
    for d in 1..=250usize { for m in 0..4 { let mut e = gen::ev('I', vec![I(d as i64)]); for k in 0..d { e = if m == 0 || (m == 2 && k % 2 == 0) || (m == 3 && k % 3 == 0) { gen::ev('[', vec![L(if m == 3 { vec![e, gen::ev('Z', vec![I(0)])] } else { vec![e] })]) } else { gen::ev('@', vec![gen::ann("LN;", vec![gen::pair("k", e)])]) } } go("chain", pl[0].1(e.clone())); go("chain", pl[8].1(e.clone())); go("chain", pl[15].1(e)) } }
    // deep chains beside many other values
    for d in [10usize, 100, 200, 250] { for m in 0..2 { for n in [2usize, 255, 300, 1100] { for at in [0, n / 2, n - 1] { for out in 0..2 {
        let mut e = gen::ev('I', vec![I(5)]); for _ in 1..d { e = if m == 0 { gen::ev('[', vec![L(vec![e])]) } else { gen::ev('@', vec![gen::ann("LN;", vec![gen::pair("k", e)])]) } }
        let item = |i: usize| if i == at { e.clone() } else if i % 2 == 0 { gen::ev('Z', vec![I(1)]) } else { gen::ev('[', vec![L(vec![])]) };
        go("deep beside many", pl[0].1(if out == 0 { gen::ev('[', vec![L((0..n).map(item).collect())]) } else { gen::ev('@', vec![gen::ann("LN;", (0..n).map(|i| gen::pair(&format!("k{i:05}"), item(i))).collect())]) }));
    } } } } }
    // nesting far beyond what is supported is an error, at every place
    let deep: Vec<(usize, u8)> = [260usize, 300, 511, 512, 513, 1000, 3000].into_iter().flat_map(|d| (0..4u8).map(move |m| (d, m))).collect();
    par(deep.len(), |k| { let (d, m) = deep[k]; for place in 0..5 {
        ctx.case(|| format!("{d} levels, shape {m}, place {place}"), || {
            let mut p = RawPool::new(); let (t, n, one) = (p.utf("LN;"), p.utf("k"), p.add(3, &raw::u4(1)));
            let mut e = vec![];
            for i in 0..d { if m == 0 || (m == 2 && i % 2 == 0) || (m == 3 && i < d / 2) { e.extend([b'[', 0, 1]) } else { e.push(b'@'); e.extend(u2(t)); e.extend([0, 1]); e.extend(u2(n)) } }
            e.push(b'I'); e.extend(u2(one));
            let in_ann = |h: &[u8]| { let mut b = h.to_vec(); b.extend(u2(t)); b.extend([0, 1]); b.extend(u2(n)); b.extend(&e); b };
            let (name, body) = match place { 0 => ("AnnotationDefault", e.clone()), 1 => ("RuntimeVisibleAnnotations", in_ann(&[0, 1])), 2 => ("RuntimeInvisibleParameterAnnotations", in_ann(&[1, 0, 1])), 3 => ("RuntimeVisibleTypeAnnotations", in_ann(&[0, 1, 0x14, 0])), _ => ("RuntimeInvisibleTypeAnnotations", in_ann(&[0, 1, 0x43, 0, 0, 0])) };
            let f = if place == 4 { raw::with_code(p, &[0, 177], &[], &[(name, body)], &[]) } else { let a = raw::attr(&mut p, name, &body); raw::class_file(p, None, Some(&[a]), &[]) };
            ctx.steps(1); ctx.state(fnv(&f));
            match guard(|| read(&f))? { Err(_) => { ctx.tag("too deep: rejected"); Ok(1) } Ok(_) => Err("accepted".into()) }
        })
    } });
    // the published numbers of the targets
    { use coffer::constants::target_types as T; for (i, (x, y)) in [(T::TYPE_GENERIC_CLASS, 0x00u8), (T::TYPE_GENERIC_METHOD, 0x01u8), (T::TYPE_EXTENDS, 0x10u8), (T::TYPE_GENERIC_CLASS_PARAMETER, 0x11u8), (T::TYPE_GENERIC_METHOD_PARAMETER, 0x12u8), (T::TYPE_FIELD, 0x13u8), (T::TYPE_METHOD, 0x14u8), (T::TYPE_METHOD_RECIEVER, 0x15u8), (T::TYPE_METHOD_PARAMETER, 0x16u8), (T::TYPE_METHOD_THROWS, 0x17u8), (T::TYPE_VAR_LOCAL, 0x40u8), (T::TYPE_VAR_RESOURCE, 0x41u8), (T::TYPE_EXCEPTION_PARAMETER, 0x42u8), (T::TYPE_INSTANCEOF, 0x43u8), (T::TYPE_NEW, 0x44u8), (T::TYPE_METHOD_REF_NEW, 0x45u8), (T::TYPE_METHOD_REF_IDENTIFIER, 0x46u8), (T::TYPE_CAST, 0x47u8), (T::TYPE_GENERIC_CONSTRUCTOR, 0x48u8), (T::TYPE_GENERIC_METHOD_ARGUMENT, 0x49u8), (T::TYPE_GENERIC_CONSTRUCTOR_REF_NEW, 0x4Au8), (T::TYPE_GENERIC_METHOD_REF_NEW, 0x4Bu8)].into_iter().enumerate() { ctx.case(|| format!("target constant number {i}"), || if x == y { Ok(i as u64) } else { Err(format!("{x} instead of {y}")) }) } }
    // many pairs / elements / annotations / parameters
    for n in [0usize, 1, 2, 3, 10, 127, 128, 255, 256, 257, 1000, 4096, 4097, 32768, 60_000, 65_535] {
        let pairs: Vec<V> = { let mut v: Vec<V> = (0..n).map(|i| gen::pair(&format!("p{i}"), gen::ev('I', vec![I(i as i64 % 4500)]))).collect(); v.sort(); v };
        if n <= 60_000 { go("pairs", gen::wrap_class(vec![N("RVA", vec![L(vec![gen::ann("LA;", pairs)])])])) }
        go("elements", pl[8].1(gen::ev('[', vec![L((0..n).map(|i| gen::ev('C', vec![I(i as i64 % 60_000)])).collect())])));
        go("annotations", gen::wrap_field(vec![N("RIA", vec![L((0..n).map(|i| gen::ann(&format!("LA{};", i % 60_000), vec![])).collect())])]));
        if n < 256 { for a in ["RVPA", "RIPA"] { go("parameters", gen::wrap_method(vec![N(a, vec![L((0..n).map(|i| L((0..i % 3).map(|j| gen::ann(&format!("LA{j};"), vec![])).collect())).collect())])])) } }
    }
    // lists that do not fit their count: an error, never a shorter list
    for n in [256usize, 257, 511, 512, 65535, 65536] { for k in 0..4 {
        let v = match k { 0 | 1 => gen::wrap_method(vec![N(["RVPA", "RIPA"][k], vec![L(vec![L(vec![]); n])])]), 2 => gen::wrap_field(vec![N("RVTA", vec![L(vec![gen::tann(vec![I(0x13)], L(vec![L(vec![I(0), I(0)]); n]), "LT;", vec![])])])]), _ => gen::wrap_code(gen::codev(vec![gen::ret()], vec![], vec![], vec![], vec![], vec![N("RITA", vec![L(vec![gen::tann(vec![I(0x44), I(0)], L(vec![L(vec![I(3), I(1)]); n]), "LT;", vec![])])])])) };
        ctx.case(|| format!("{n} entries, list {k}"), || { ctx.steps(1); match write(&conc::class(&v)) { Err(_) => { ctx.tag("too many: rejected"); Ok(1) } Ok(b) => Err(format!("written: {}", clip(&hex(&b)))) } });
    } }
    for n in [65536usize, 65537] { for k in 0..3 {
        let v = match k { 0 => gen::wrap_class(vec![N("RVA", vec![L(vec![gen::ann("LA;", vec![]); n])])]), 1 => pl[8].1(gen::ev('[', vec![L(vec![gen::ev('Z', vec![I(1)]); n])])), _ => gen::wrap_class(vec![N("RITA", vec![L(vec![gen::tann(vec![I(0), I(0)], L(vec![]), "LT;", vec![]); n])])]) };
        ctx.case(|| format!("{n} entries, long list {k}"), || { ctx.steps(1); match write(&conc::class(&v)) { Err(_) => { ctx.tag("too many: rejected"); Ok(1) } Ok(b) => Err(format!("written: {}", clip(&hex(&b)))) } });
    } }
    // names and types
    for x in gen::strings() { go("element name", gen::wrap_class(vec![N("RVA", vec![L(vec![N("ann", vec![s("LA;"), L({ let mut v = vec![N("pair", vec![x.clone(), gen::ev('I', vec![I(1)])]), gen::pair("zz", gen::ev('I', vec![I(2)]))]; v.sort(); v })])])])])) }
    for d in gen::field_descs() { go("annotation type", gen::wrap_class(vec![N("RVA", vec![L(vec![N("ann", vec![d.clone(), L(vec![])])])])])); go("type annotation type", gen::wrap_class(vec![N("RITA", vec![L(vec![N("tann", vec![N("tgt", vec![I(0), I(0)]), L(vec![]), d, L(vec![])])])])])) }
    // well-known words wherever an annotation names something
    let mut bases: Vec<V> = leaves.iter().filter(|e| { let mut t = vec![]; leaves_of(e, &mut t); !t.is_empty() }).flat_map(|e| pl.iter().map(move |(_, f)| f(e.clone()))).collect();
    for (loc, wrap) in [('c', gen::wrap_class as fn(Vec<V>) -> V), ('f', gen::wrap_field), ('m', gen::wrap_method)] { bases.push(wrap(vec![N("RVTA", vec![L(gen::tanns(loc))])])); bases.push(wrap(vec![N("RIA", vec![L(gen::anns())])])) }
    let words = crate::fam::names_of(bases); ctx.tag_n("well-known words", words.len() as u64);
    par(words.len(), |k| go("word", words[k].clone()));
    // targets: every operand
    let wrapt = |loc: char, vis: bool, t: Vec<V>, path: V| { let a = N(if vis { "RVTA" } else { "RITA" }, vec![L(vec![gen::tann(t, path, "LT;", vec![])])]); match loc { 'c' => gen::wrap_class(vec![a]), 'f' => gen::wrap_field(vec![a]), 'm' => gen::wrap_method(vec![a]), _ => gen::wrap_code(gen::codev(vec![gen::opn(0), gen::opn(0), gen::ret()], vec![N("h", vec![I(0), I(1), I(2), none()]), N("h", vec![I(0), I(1), I(2), s("E")])], vec![], vec![], vec![], vec![a])) } };
    let two = ctx.pick(24i64, 256);
    let mut ts: Vec<(char, Vec<V>)> = vec![('f', vec![I(0x13)]), ('m', vec![I(0x14)]), ('m', vec![I(0x15)])];
    for x in 0..256 { ts.push(('c', vec![I(0), I(x)])); ts.push(('m', vec![I(1), I(x)])); ts.push(('m', vec![I(0x16), I(x)])); for k in 0..two { let y = if two == 256 { k } else { [0, 1, 2, 127, 128, 254, 255, x, 255 - x, (x + 1) % 256, x ^ 1, x ^ 128][k as usize % 12] }; ts.push(('c', vec![I(0x11), I(x), I(y)])); ts.push(('m', vec![I(0x12), I(x), I(y)])) } for q in 0..3 { for t in 0x47..=0x4B { ts.push(('k', vec![I(t), I(q), I(x)])) } } }
    for x in 0..65536i64 { ts.push(('c', vec![I(0x10), I(x)])); ts.push(('m', vec![I(0x17), I(x)])); if x % 16 == 0 || x < 300 { ts.push(('k', vec![I(0x40 + x % 2), L(vec![L(vec![I(0), I(2), I(x)]), L(vec![I(1), I(3), I(65535 - x)])])])) } }
    for q in 0..3 { for t in 0x43..=0x46 { ts.push(('k', vec![I(t), I(q)])) } }
    for h in [none(), s("E")] { ts.push(('k', vec![I(0x42), N("h", vec![I(0), I(1), I(2), h])])) }
    ts.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1))); ts.dedup();
    ctx.tag_n("targets", ts.len() as u64);
    par(ts.len(), |k| { let (l, t) = &ts[k]; go("target", wrapt(*l, k % 2 == 0, t.clone(), L(vec![]))) });
    for vis in [false, true] { for (l, t) in [('c', vec![I(0), I(1)]), ('c', vec![I(0x10), I(1)]), ('c', vec![I(0x11), I(1), I(2)]), ('f', vec![I(0x13)]), ('m', vec![I(1), I(5)]), ('m', vec![I(0x12), I(5), I(6)]), ('m', vec![I(0x14)]), ('m', vec![I(0x15)]), ('m', vec![I(0x16), I(3)]), ('m', vec![I(0x17), I(3)])] { go("target", wrapt(l, vis, t, L(vec![]))) } }
    // targets in code: many handlers, far positions
    for n in [2usize, 254, 255, 256, 257, 300, 511, 512, 513, 4097, 65_535] { for off in [0, 1] {
        let hs: Vec<V> = (0..n as i64).map(|i| N("h", vec![I(i / 300), I(i / 300 + 1), I(i % 300), if off == 1 && i % 2 == 1 { s("E") } else { none() }])).collect();
        let at: Vec<usize> = { let mut v: Vec<usize> = [0, 1, 127, 128, 254, 255, 256, 257, 299, 510, 511, 512, n / 2, n - 2, n - 1].into_iter().filter(|x| *x < n).collect(); v.sort(); v.dedup(); v };
        let mut ins = vec![gen::opn(0); 300]; ins.push(gen::ret());
        go("catch targets", gen::wrap_code(gen::codev(ins, hs.clone(), vec![], vec![], vec![], vec![N("RVTA", vec![L(at.iter().map(|i| gen::tann(vec![I(0x42), hs[*i].clone()], L(vec![]), "LT;", vec![])).collect())])])));
    } }
    for n in [2usize, 129, 257, 32_769, 65_535] { let mut ins = vec![gen::opn(0); n - 1]; ins.push(gen::ret());
        let at: Vec<i64> = { let mut v: Vec<i64> = [0i64, 1, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 32_766, 32_767, 32_768, n as i64 / 2, n as i64 - 2, n as i64 - 1].into_iter().filter(|x| *x < n as i64).collect(); v.sort(); v.dedup(); v };
        for t in 0x43..=0x4Bi64 { go("offset targets", gen::wrap_code(gen::codev(ins.clone(), vec![], vec![], vec![], vec![], vec![N("RITA", vec![L(at.iter().map(|x| gen::tann(if t < 0x47 { vec![I(t), I(*x)] } else { vec![I(t), I(*x), I(x % 256)] }, L(vec![]), "LT;", vec![])).collect())])]))) }
        for t in [0x40i64, 0x41] { let mut rs = vec![]; for a in &at { for b in at.iter().chain([&(n as i64)]) { if b >= a { rs.push(L(vec![I(*a), I(*b), I(*b % 65536)])) } } } go("range targets", gen::wrap_code(gen::codev(ins.clone(), vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![gen::tann(vec![I(t), L(rs)], L(vec![]), "LT;", vec![])])])]))) }
    }
    // paths
    let step = |k: i64, a: i64| L(vec![I(k), I(a)]);
    let mut ps: Vec<V> = vec![];
    for k in 0..4 { for a in 0..256 { ps.push(L(vec![step(k, a)])) } }
    let al: Vec<(i64, i64)> = vec![(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 255), (0, 7)]; let ix: Vec<usize> = (0..al.len()).collect(); let mut w = vec![];
    for n in 2..=ctx.pick(4usize, 5) { for k in 0..al.len().pow(n as u32) { word(k, n, &ix, &mut w); ps.push(L(w.iter().map(|i| step(al[*i].0, al[*i].1)).collect())) } }
    for n in [127usize, 128, 254, 255] { ps.push(L((0..n).map(|i| step(i as i64 % 4, 0)).collect())) }
    ctx.tag_n("paths", ps.len() as u64);
    par(ps.len(), |k| { let (l, t) = [('c', vec![I(0), I(1)]), ('f', vec![I(0x13)]), ('m', vec![I(0x14)]), ('k', vec![I(0x44), I(1)])][k % 4].clone(); go("path", wrapt(l, k / 4 % 2 == 0, t, ps[k].clone())) });
    negatives(ctx);
    ctx.finish("model_checking")
}
fn negatives(ctx: &Ctx) {
    // one constant of every kind, and out-of-range integers
    let mut p = RawPool::new();
    let ints: Vec<i64> = vec![i32::MIN as i64, -65537, -65536, -65535, -32770, -32769, -32768, -257, -256, -255, -129, -128, -2, -1, 0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, i32::MAX as i64];
    let ii: Vec<u16> = ints.iter().map(|x| p.add(3, &u4(*x as u32))).collect();
    let mut kinds: Vec<(&str, u16)> = vec![("float", p.add(4, &u4(1))), ("long", p.add(5, &[0, 0, 0, 0, 0, 0, 0, 1])), ("double", p.add(6, &[0, 0, 0, 0, 0, 0, 0, 1]))];
    kinds.push(("desc", p.utf("LE;"))); kinds.push(("V", p.utf("V"))); kinds.push(("text", p.utf("x")));
    kinds.push(("class", p.class("C"))); kinds.push(("string", p.one(8, "st"))); kinds.push(("field", p.member(9, "A", "f", "I"))); kinds.push(("method", p.member(10, "A", "m", "()V"))); kinds.push(("nt", p.nt("f", "I"))); kinds.push(("mtype", p.one(16, "()V")));
    let gap = kinds[1].1 + 1;
    kinds.push(("zero", 0)); kinds.push(("gap", gap)); kinds.push(("beyond", 60000));
    let ann = p.utf("LA;"); let v = p.utf("v");
    // (element bytes) inside an annotation default, an annotation, an array
    let wrap = |place: usize, e: &[u8]| {
        let mut q = p.clone();
        match place {
            0 => { let a = raw::attr(&mut q, "AnnotationDefault", e); raw::class_file(q, None, Some(&[a]), &[]) }
            1 => { let mut b = vec![0, 1]; b.extend(u2(ann)); b.extend([0, 1]); b.extend(u2(v)); b.extend_from_slice(e); let a = raw::attr(&mut q, "RuntimeVisibleAnnotations", &b); raw::class_file(q, None, None, &[a]) }
            2 => { let mut b = vec![b'[', 0, 2, b'I']; b.extend(u2(ii[0])); b.extend_from_slice(e); let a = raw::attr(&mut q, "AnnotationDefault", &b); raw::class_file(q, None, Some(&[a]), &[]) }
            _ => { let mut b = vec![0, 1, 0x13, 0]; b.extend(u2(ann)); b.extend([0, 1]); b.extend(u2(v)); b.extend_from_slice(e); let a = raw::attr(&mut q, "RuntimeInvisibleTypeAnnotations", &b); raw::class_file(q, Some(&[a]), None, &[]) }
        }
    };
    let judge = |what: String, f: Vec<u8>, ok: Option<bool>| { ctx.state(fnv(&f)); ctx.case(|| what.clone(), || { ctx.steps(1); match (ok, read(&f)) {
        (Some(true), Ok(c)) => { same("read as", &parse::parse_class(&f).map_err(|e| format!("MODEL: {e}"))?, &abs::class(&c)?)?; Ok(fnv(&f)) }
        (Some(true), Err(e)) => Err(format!("valid value rejected: {e}")), (Some(false), Ok(_)) => Err("accepted".into()), (Some(false), Err(_)) => Ok(0), (None, _) => Ok(1) } }) };
    let tags = b"BCDFIJSZsec@[";
    for place in 0..4 {
        for t in 0..=255u8 { if tags.contains(&t) { continue } for e in [vec![t], vec![t, 0, 0], { let mut b = vec![t]; b.extend(u2(ii[14])); b }, { let mut b = vec![t]; b.extend(u2(kinds[3].1)); b.extend(u2(kinds[5].1)); b }] { judge(format!("element tag {t} ({} bytes) in place {place}", e.len()), wrap(place, &e), Some(false)) } }
        for t in b"BCDFIJSZsec".iter().copied() {
            let e = |i: u16| { let mut b = vec![t]; b.extend(u2(i)); if t == b'e' { b.extend(u2(kinds[5].1)) } b };
            for (x, i) in ints.iter().zip(&ii) { let ok = match t { b'B' => (-128..=127).contains(x), b'C' => (0..=65535).contains(x), b'S' => (-32768..=32767).contains(x), b'Z' => (0..=1).contains(x), b'I' => true, _ => false }; judge(format!("element {} with int {x} in place {place}", t as char), wrap(place, &e(*i)), Some(ok)) }
            for (k, i) in &kinds { let ok = match (t, *k) { (b'F', "float") | (b'J', "long") | (b'D', "double") | (b's', "desc" | "V" | "text") | (b'e' | b'c', "desc") | (b'c', "V") => true, _ => false }; judge(format!("element {} with {k} constant in place {place}", t as char), wrap(place, &e(*i)), Some(ok)) }
        }
        // names of enum constants, types of nested annotations, element names
        for (k, i) in &kinds { let txt = matches!(*k, "desc" | "V" | "text");
            let mut b = vec![b'e']; b.extend(u2(kinds[3].1)); b.extend(u2(*i)); judge(format!("enum constant named by {k} in place {place}"), wrap(place, &b), Some(txt));
            let mut b = vec![b'@']; b.extend(u2(*i)); b.extend([0, 0]); judge(format!("nested annotation with type {k} in place {place}"), wrap(place, &b), Some(*k == "desc"));
            let mut b = vec![b'@']; b.extend(u2(ann)); b.extend([0, 1]); b.extend(u2(*i)); b.push(b'I'); b.extend(u2(ii[0])); judge(format!("nested annotation with element named by {k} in place {place}"), wrap(place, &b), Some(txt)) }
    }
    // target types and path kinds
    let shape = |t: u8| match t { 0 | 1 | 0x16 => Some(1usize), 0x10 | 0x17 | 0x11 | 0x12 => Some(2), 0x13..=0x15 => Some(0), 0x40 | 0x41 => Some(2), 0x42..=0x46 => Some(2), 0x47..=0x4B => Some(3), _ => None };
    for loc in ['c', 'f', 'm', 'k'] { for an in ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"] {
        let wrap = |body: &[u8]| { let mut q = p.clone(); let a = raw::attr(&mut q, an, body); match loc { 'c' => raw::class_file(q, None, None, &[a]), 'f' => raw::class_file(q, Some(&[a]), None, &[]), 'm' => raw::class_file(q, None, Some(&[a]), &[]), _ => { let c = raw::attr(&mut q, "Code", &raw::code_body(&[0, 177], &[[0, 1, 1, 0]], &[a])); raw::class_file(q, None, Some(&[c]), &[]) } } };
        for t in 0..=255u8 {
            let here = match loc { 'c' => matches!(t, 0 | 0x10 | 0x11), 'f' => t == 0x13, 'm' => matches!(t, 1 | 0x12 | 0x14..=0x17), _ => (0x40..=0x4B).contains(&t) };
            for n in 0..=4usize { let mut b = vec![0, 1, t]; b.extend(vec![0; n]); b.push(0); b.extend(u2(ann)); b.extend([0, 0]); let ok = if !here { Some(false) } else if shape(t) == Some(n) { Some(true) } else { None }; judge(format!("target type {t:#x} with {n} bytes in {loc} {an}"), wrap(&b), ok) }
        }
        let head: &[u8] = match loc { 'c' => &[0, 1, 0, 0], 'f' => &[0, 1, 0x13], 'm' => &[0, 1, 0x14], _ => &[0, 1, 0x43, 0, 0] };
        for k in 0..=255u8 { for at in 0..3 { for a in [0u8, 1, 255] { let mut b = head.to_vec(); b.push(3); for j in 0..3 { if j == at { b.extend([k, a]) } else { b.extend([3, 0]) } } b.extend(u2(ann)); b.extend([0, 0]); judge(format!("path kind {k} index {a} at step {at} in {loc} {an}"), wrap(&b), Some(k <= 3)) } } }
        // indices that do not exist
        if loc == 'k' {
            for x in 0..=300u16 { let o = u2(x);
                for t in 0x42..=0x4Bu8 { let mut b = vec![0, 1, t]; b.extend(o); if t >= 0x47 { b.push(0) } b.push(0); b.extend(u2(ann)); b.extend([0, 0]); let ok = if t == 0x42 { x == 0 } else { x < 2 }; judge(format!("target {t:#x} at {x} in code {an}"), wrap(&b), if t != 0x42 && x == 2 { None } else { Some(ok) }) } }
        }
    } }
}
