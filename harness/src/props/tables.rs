//! C15: exception handlers, line numbers, local variables and code type annotations.
use super::c01::{read, same, write};
use super::layout::{self, It};
use crate::engine::*;
use crate::parse::{self, Rd};
use crate::raw::{self, u2, RawPool};
use crate::v::*;
use crate::{abs, conc, enc, gen};
use coffer::annotation::*;
use coffer::prelude::*;
use std::collections::HashMap;

fn body() -> Vec<V> { vec![gen::opn(0), N("push", vec![gen::kint(300)]), N("iinc", vec![I(256), I(1)]), gen::jmp(153, 0), gen::ret()] }
const NI: i64 = 5;
fn cv(hs: Vec<V>, lines: Vec<V>, lv: Vec<V>, lvt: Vec<V>, other: Vec<V>) -> V { gen::codev(body(), hs, lines, lv, lvt, other) }
fn h(a: i64, b: i64, c: i64, t: V) -> V { N("h", vec![I(a), I(b), I(c), t]) }
/// Writes a code built with labels in `style`, compares the file and what is read back.
fn rt(ctx: &Ctx, v: &V, style: u32) -> Result<u64, String> {
    let mut cl = conc::class(&gen::wrap_method(vec![]));
    cl.methods[0].attributes.push(MethodAttribute::Code(conc::code_lab(v, style)));
    let want = gen::wrap_code(v.clone());
    let b = write(&cl)?; ctx.steps(1);
    let sorted = { let mut v = v.clone(); if let N(_, x) = &mut v { for k in [5, 6] { if let L(l) = &mut x[k] { l.sort() } } } gen::wrap_code(v) };
    same("the file says", &sorted, &parse::parse_class(&b)?)?;
    keep_order(|| -> Result<(), String> {
        // the order of the variables written is the order of the list
        let p = parse::parse_class(&b)?;
        let k = |v: &V| v.at(7).at(0).at(3).at(0).at(5).clone();
        same("order of local variables in the file", &k(&want), &k(&p))
    })?;
    let r = read(&b)?; ctx.steps(1);
    same("read back", &sorted, &abs::class(&r)?)?;
    keep_order(|| -> Result<(), String> { let k = |v: &V| v.at(7).at(0).at(3).at(0).at(5).clone(); same("order of local variables read", &k(&want), &k(&abs::class(&r)?)) })?;
    Ok(fnv(&b))
}
fn go(ctx: &Ctx, what: &str, vs: Vec<V>, styles: u32) {
    ctx.tag_n(what, vs.len() as u64);
    par(vs.len(), |k| { ctx.state(hash_of(&vs[k])); for st in 0..styles { ctx.case(|| format!("labels {st}: {:?}", vs[k]), || rt(ctx, &vs[k], st)) } });
}
fn ranges(strict: bool) -> Vec<(i64, i64)> { let mut v = vec![]; for a in 0..=NI { for b in a + strict as i64..=NI { v.push((a, b)) } } v }
fn write_side(ctx: &Ctx) {
    let mut hs = vec![];
    for (a, b) in ranges(true) { for c in 0..NI { for t in [none(), s("E")] { hs.push(h(a, b, c, t)) } } }
    let mut v: Vec<V> = hs.iter().map(|x| cv(vec![x.clone()], vec![], vec![], vec![], vec![])).collect();
    for x in &hs { for y in &hs { v.push(cv(vec![x.clone(), y.clone()], vec![], vec![], vec![], vec![])) } }
    go(ctx, "handlers", v, 3);
    // lines
    let ent: Vec<V> = (0..NI).flat_map(|p| [0i64, 1, 65535].map(|l| L(vec![I(p), I(l)]))).collect();
    let mut v = vec![]; let mut w = vec![];
    for n in 0..=ctx.pick(3usize, 4) { for k in 0..ent.len().pow(n as u32) { let ix: Vec<usize> = (0..ent.len()).collect(); word(k, n, &ix, &mut w); let l: Vec<V> = w.iter().map(|i| ent[*i].clone()).collect(); if l.windows(2).all(|x| x[0].at(0) <= x[1].at(0)) { v.push(cv(vec![], l, vec![], vec![], vec![])) } } }
    go(ctx, "lines", v, 1);
    // local variables: descriptor, signature or both
    let e = |r: (i64, i64), n: &str, d: &str, i: i64| L(vec![I(r.0), I(r.1), s(n), s(d), I(i)]);
    let mut v = vec![];
    let add = |es: &[((i64, i64), u8, &str, i64)]| { let (mut lv, mut lvt) = (vec![], vec![]); for (r, sh, n, i) in es { if sh & 1 != 0 { lv.push(e(*r, n, "LA;", *i)) } if sh & 2 != 0 { lvt.push(e(*r, n, "LA<TT;>;", *i)) } } cv(vec![], vec![], lv, lvt, vec![]) };
    for r in ranges(false) { for sh in 1..4 { for n in ["x", "é"] { for i in [0, 255, 256, 65535] { v.push(add(&[(r, sh, n, i)])) } } } }
    for r in ranges(false) { for q in ranges(false) { for sh in 1..4 { for sg in 1..4 { for (n, i) in [("x", 1i64), ("y", 0), ("y", 1), ("x", 0)] { if r == q && n == "x" && i == 0 { continue } if sh == 2 && sg & 1 != 0 { continue } v.push(add(&[(r, sh, "x", 0), (q, sg, n, i)])) } } } } }
    go(ctx, "local variables", v, ctx.pick(2, 3));
    // code type annotations
    let mut tg: Vec<Vec<V>> = vec![];
    for t in [0x40, 0x41] { tg.push(vec![I(t), L(vec![])]); for r in ranges(false) { tg.push(vec![I(t), L(vec![L(vec![I(r.0), I(r.1), I(65535)])])]); for q in ranges(false) { tg.push(vec![I(t), L(vec![L(vec![I(r.0), I(r.1), I(0)]), L(vec![I(q.0), I(q.1), I(256)])])]) } } }
    for t in 0x43..=0x46 { for p in 0..NI { tg.push(vec![I(t), I(p)]) } }
    for t in 0x47..=0x4B { for p in 0..NI { for a in [0, 1, 255] { tg.push(vec![I(t), I(p), I(a)]) } } }
    let mut v = vec![];
    let ta = |t: &Vec<V>| gen::tann(t.clone(), gen::paths()[2].clone(), "LT;", vec![gen::pair("v", gen::ev('I', vec![I(1)]))]);
    for t in &tg { for n in ["RVTA", "RITA"] { v.push(cv(vec![], vec![], vec![], vec![], vec![N(n, vec![L(vec![ta(t)])])])) } }
    let three = [h(0, 1, 2, s("E")), h(0, 1, 2, none()), h(0, 3, 3, s("F"))];
    for i in 0..3 { for j in 0..3 { v.push(cv(three.to_vec(), vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![ta(&vec![I(0x42), three[i].clone()]), ta(&vec![I(0x42), three[j].clone()])])])])) } }
    let some: Vec<&Vec<V>> = tg.iter().step_by(if ctx.thorough() { 1 } else { tg.len() / 150 }).collect();
    for a in &some { for b in &some { v.push(cv(vec![h(1, 2, 3, none())], vec![L(vec![I(2), I(9)])], vec![e((1, 4), "x", "I", 1)], vec![], vec![N("RVTA", vec![L(vec![ta(a), ta(b)])]), N("RITA", vec![L(vec![ta(b)])])])) } }
    go(ctx, "code type annotations", v, 2);
}
/// Every table over every position of a program with wide branches and switches: offsets in the file must be the positions' pcs.
fn programs(ctx: &Ctx) {
    use It::*;
    let mut ps: Vec<Vec<It>> = vec![vec![Fill(1), Jmp(153, 3), Fill(3), End]];
    for d in [100usize, 32750, 32764, 32765, 32766, 32767, 32768, 40000] {
        ps.push(vec![Fill(1), Jmp(153, 4), Fill(3), Fill(d), Fill(2), Jmp(154, 0), Fill(4), End]);
        ps.push(vec![Jmp(167, 4), Jsr(4), Tsw(0, 1, vec![2, 4]), Fill(d), Lsw(1, vec![(2, 0)]), Jmp(198, 0), End]);
        ps.push(vec![Fill(d), Jmp(199, 0), Jmp(155, 0), Fill(2), Jmp(167, 0), Fill(1), End]);
    }
    for pre in 1..5 { ps.push(vec![Fill(pre), Tsw(2, 0, vec![0]), Fill(5), Lsw(0, vec![]), End]) }
    // exactly at the limit
    for k in [153i64, 167] { let base = vec![Jmp(k, 3), Fill(7), Fill(40000), End]; let (_, n, _) = layout::layout(&base); let mut p = base; p[1] = Fill(7 + (65535 - n) as usize); ps.push(p) }
    ctx.tag_n("programs with every table entry", ps.len() as u64);
    par(ps.len(), |k| {
        let p = &ps[k];
        ctx.state(hash_of(p));
        ctx.case(|| format!("all tables over {p:?}"), || {
            let n = p.len();
            let l = |t: usize| Label(t as u32 * 3 + 1);
            let mut c = layout::build(p);
            // a line number in front of every item's label
            let mut lines = vec![]; let mut out = vec![]; let mut it = 0;
            for x in c.code.drain(..) { if let Instruction::Label(_) = x { out.push(Instruction::LineNumber(it as u16 + 7)); lines.push((it, it as u16 + 7)); it += 1 } out.push(x) }
            out.push(Instruction::Label(l(n))); c.code = out;
            let mut rs = vec![]; for a in 0..=n { for b in a..=n { rs.push((a, b)) } }
            let mut hs = vec![]; for (a, b) in &rs { if a < b { for h in 0..n { hs.push((*a, *b, h)) } } }
            c.catches = hs.iter().map(|(a, b, h)| Catch { start: l(*a), end: l(*b), handler: l(*h), catch: None }).collect();
            let w = |s: &str| conc::w(&s.encode_utf16().collect::<Vec<_>>());
            c.attrs.push(CodeAttribute::LocalVariables(rs.iter().enumerate().map(|(i, (a, b))| LocalVariable { start: l(*a), end: l(*b), name: w("x"), descriptor: Some(Type::Int), signature: Some("TT;".parse().unwrap()), index: i as u16 }).collect()));
            let ta = |target| CodeTypeAnnotation { target, type_path: vec![], annotation_type: Type::Ref(w("T")), element_values: Default::default() };
            let lt = || rs.iter().map(|(a, b)| LocalVarTarget { start: l(*a), end: l(*b), idx: 3 }).collect::<Vec<_>>();
            let mut an = vec![ta(CodeTypeAnnotationTarget::LocalVariable(lt())), ta(CodeTypeAnnotationTarget::ResourceVariable(lt()))];
            for t in 0..n { an.push(ta(CodeTypeAnnotationTarget::Constructor(l(t)))); an.push(ta(CodeTypeAnnotationTarget::Cast(l(t), 1))) }
            for cc in &c.catches { an.push(ta(CodeTypeAnnotationTarget::CatchParameter(cc.clone()))) }
            c.attrs.push(CodeAttribute::InvisibleTypeAnnotations(an));
            let b = write(&layout::class_of(c))?; ctx.steps(1);
            let (cb, pool) = layout::code_bytes(&b)?;
            let d = parse::decode(&cb, &pool)?;
            let pc = layout::match_pcs(p, &d, cb.len() as i64)?;
            // look at the tables in the file
            let pos = b.windows(cb.len()).position(|w| w == &cb[..]).ok_or("code not found")?;
            let mut r = Rd::new(&b); r.p = pos + cb.len();
            let nh = r.u2()? as usize;
            if nh != hs.len() { return Err(format!("{nh} handlers")) }
            for (a, e, h) in &hs { let g = [r.u2()?, r.u2()?, r.u2()?, r.u2()?]; let want = [pc[*a] as u16, pc[*e] as u16, pc[*h] as u16, 0]; if g != want { return Err(format!("handler {a}..{e}->{h}: file says {g:?}, positions are {want:?}")) } }
            let mut at: HashMap<String, Vec<u8>> = HashMap::new();
            for _ in 0..r.u2()? { let nm = pool.utf8(r.u2()?)?; let len = r.u4()? as usize; at.insert(String::from_utf16_lossy(&nm), r.take(len)?.to_vec()); }
            let get = |k: &str| at.get(k).ok_or(format!("{k} missing"));
            let mut q = Rd::new(get("LineNumberTable")?); if q.u2()? as usize != lines.len() { return Err("line count".into()) }
            for (i, no) in &lines { let g = (q.u2()? as i64, q.u2()?); if g != (pc[*i], *no) { return Err(format!("line of item {i}: file says {g:?}, position is {}", pc[*i])) } } q.end()?;
            for nm in ["LocalVariableTable", "LocalVariableTypeTable"] {
                let mut q = Rd::new(get(nm)?); if q.u2()? as usize != rs.len() { return Err("variable count".into()) }
                for (i, (a, e)) in rs.iter().enumerate() { let g = (q.u2()? as i64, q.u2()? as i64); q.take(4)?; let ix = q.u2()?; if g != (pc[*a], pc[*e] - pc[*a]) || ix != i as u16 { return Err(format!("{nm} {a}..{e}: file says {g:?}, positions {} {}", pc[*a], pc[*e])) } } q.end()?;
            }
            let mut q = Rd::new(get("RuntimeInvisibleTypeAnnotations")?); q.u2()?;
            for tag in [0x40, 0x41] { if q.u1()? != tag { return Err("tag".into()) } q.u2()?; for (a, e) in &rs { let g = (q.u2()? as i64, q.u2()? as i64, q.u2()?); if g != (pc[*a], pc[*e] - pc[*a], 3) { return Err(format!("annotation range {a}..{e}: file says {g:?}")) } } q.take(5)?; }
            for t in 0..n { if q.u1()? != 0x44 || q.u2()? as i64 != pc[t] { return Err(format!("annotation at item {t}")) } q.take(5)?; if q.u1()? != 0x47 || q.u2()? as i64 != pc[t] || q.u1()? != 1 { return Err(format!("cast annotation at item {t}")) } q.take(5)?; }
            for (i, x) in hs.iter().enumerate() { if q.u1()? != 0x42 || q.u2()? as usize != i { return Err(format!("catch annotation {i} {x:?}")) } q.take(5)?; }
            q.end()?;
            same("read back", &parse::parse_class(&b)?, &abs::class(&read(&b)?)?)?; ctx.steps(1);
            Ok(fnv(&b))
        });
    });
}
/// Tables that cannot be written.
fn impossible(ctx: &Ctx) {
    let bad = Label(77); let ls: Vec<Label> = (0..=NI as u32).map(Label).collect();
    let base = || { let mut c = conc::code(&cv(vec![], vec![], vec![], vec![], vec![])); let ins: Vec<Instruction> = c.code.drain(..).filter(|x| !matches!(x, Instruction::Label(_))).collect(); for (i, x) in ins.into_iter().enumerate() { c.code.push(Instruction::Label(ls[i])); c.code.push(x) } c.code.push(Instruction::Label(ls[NI as usize])); c };
    let expect = |what: String, f: &dyn Fn(&mut Code)| for with in 0..8u32 { ctx.case(|| format!("{what} (with {}{}{})", ["", "lines "][with as usize & 1], ["", "variables "][with as usize >> 1 & 1], ["", "an unknown attribute"][with as usize >> 2]), || { let mut c = base(); f(&mut c); ctx.steps(1);
        if with & 1 != 0 { c.code.insert(1, Instruction::LineNumber(7)); c.code.insert(4, Instruction::LineNumber(65535)) }
        if with & 2 != 0 && !c.attrs.iter().any(|a| matches!(a, CodeAttribute::LocalVariables(_))) { c.attrs.push(CodeAttribute::LocalVariables(vec![LocalVariable { start: ls[0], end: ls[1], name: conc::w(&[120]), descriptor: Some(Type::Int), signature: None, index: 0 }])) }
        if with & 4 != 0 { c.attrs.insert(0, CodeAttribute::Raw(RawAttribute::new(conc::w(&[81]), vec![1]))) }
        match write(&layout::class_of(c)) { Err(_) => { ctx.tag("rejected on writing"); Ok(1) } Ok(b) => Err(format!("written: {}", clip(&hex(&b)))) } }) };
    // the body itself is fine
    ctx.case(|| "body with labels everywhere".into(), || { let b = write(&layout::class_of(base()))?; same("read back", &parse::parse_class(&b)?, &abs::class(&read(&b)?)?)?; Ok(0) });
    let w = |s: &str| conc::w(&s.encode_utf16().collect::<Vec<_>>());
    let var = |a, b, sh: u8| LocalVariable { start: a, end: b, name: w("x"), descriptor: (sh & 1 != 0).then_some(Type::Int), signature: (sh & 2 != 0).then(|| "TT;".parse().unwrap()), index: 0 };
    let ta = |target| CodeTypeAnnotation { target, type_path: vec![], annotation_type: Type::Ref(w("T")), element_values: Default::default() };
    use CodeTypeAnnotationTarget as T;
    for &x in &ls {
        for (a, b, c) in [(bad, x, x), (x, bad, x), (x, x, bad), (bad, bad, bad)] { for t in [None, Some(w("E"))] { expect(format!("handler {a:?} {b:?} {c:?} {t:?}"), &|k| k.catches = vec![Catch { start: ls[0], end: ls[1], handler: ls[0], catch: None }, Catch { start: a, end: b, handler: c, catch: t.clone() }]) } }
        for (a, b) in [(bad, x), (x, bad)] { for sh in 1..4 { expect(format!("variable {a:?} {b:?} {sh}"), &|k| k.attrs = vec![CodeAttribute::LocalVariables(vec![var(ls[0], ls[1], 1), var(a, b, sh)])]) }
            for vis in [false, true] { for tg in [T::LocalVariable as fn(Vec<LocalVarTarget>) -> T, T::ResourceVariable] { expect(format!("annotated variable {a:?} {b:?}"), &|k| { let v = vec![ta(tg(vec![LocalVarTarget { start: a, end: b, idx: 0 }]))]; k.attrs = vec![if vis { CodeAttribute::VisibleTypeAnnotations(v) } else { CodeAttribute::InvisibleTypeAnnotations(v) }] }) } } }
    }
    for a in 0..=NI as usize { for b in 0..a {
        for sh in 1..4 { expect(format!("reversed variable range {a} {b} {sh}"), &|k| k.attrs = vec![CodeAttribute::LocalVariables(vec![var(ls[a], ls[b], sh)])]) }
        for tg in [T::LocalVariable as fn(Vec<LocalVarTarget>) -> T, T::ResourceVariable] { expect(format!("reversed annotated range {a} {b}"), &|k| k.attrs = vec![CodeAttribute::VisibleTypeAnnotations(vec![ta(tg(vec![LocalVarTarget { start: ls[0], end: ls[1], idx: 0 }, LocalVarTarget { start: ls[a], end: ls[b], idx: 0 }]))])]) }
    } }
    for vis in [false, true] {
        let set = move |k: &mut Code, t: CodeTypeAnnotationTarget, ta: &dyn Fn(CodeTypeAnnotationTarget) -> CodeTypeAnnotation| { let v = vec![ta(t)]; k.attrs = vec![if vis { CodeAttribute::VisibleTypeAnnotations(v) } else { CodeAttribute::InvisibleTypeAnnotations(v) }] };
        for (i, f) in [T::InstanceOf as fn(Label) -> T, T::Constructor, T::ConstructorRef, T::MethodRef].into_iter().enumerate() { expect(format!("annotation target {i} unplaced"), &|k| set(k, f(bad), &ta)) }
        for (i, f) in [T::Cast as fn(Label, u8) -> T, T::GenericConstructor, T::GenericMethod, T::GenericConstructorRef, T::GenericMethodRef].into_iter().enumerate() { expect(format!("annotation type argument target {i} unplaced"), &|k| set(k, f(bad, 1), &ta)) }
        let cc = |t: Option<&str>| Catch { start: ls[0], end: ls[2], handler: ls[3], catch: t.map(w) };
        expect("annotation of a handler that is not there".into(), &|k| set(k, T::CatchParameter(cc(None)), &ta));
        expect("annotation of a handler that is not among the others".into(), &|k| { k.catches = vec![cc(Some("E")), Catch { end: ls[1], ..cc(None) }]; set(k, T::CatchParameter(cc(None)), &ta) });
    }
}
fn wanted_handler(e: &str) -> [i64; 3] { let t = e.split("handler range ").nth(1).unwrap(); let n: Vec<i64> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| PCS.iter().position(|p| *p as i64 == x.parse::<i64>().unwrap()).unwrap() as i64).collect(); [n[0], n[1], n[2]] }
const PCS: [u16; 6] = [0, 1, 4, 10, 13, 14];
/// Handlers with reversed or empty ranges or at the end of the code: an error, or exactly these offsets.
fn unusual(ctx: &Ctx) {
    let plain = { let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(conc::code_lab(&cv(vec![], vec![], vec![], vec![], vec![]), 0))); cl };
    let body = [0u8, 17, 1, 44, 196, 132, 1, 0, 0, 1, 153, 0xff, 0xf6, 177];
    let n = PCS.len();
    for k in 0..n * n * n {
        let (a, b, c) = (k % n, k / n % n, k / n / n);
        if a < b && c < n - 1 { continue }
        ctx.state(hash_of(&("unusual handler", a, b, c)));
        ctx.case(|| format!("handler from {a} to {b} at {c} (instruction numbers)"), || {
            ctx.steps(1);
            let mut cl = plain.clone();
            let MethodAttribute::Code(code) = &mut cl.methods[0].attributes[0] else { return Err("no code".into()) };
            let mut ls = vec![]; let mut out = vec![]; let mut real = 0;
            for i in code.code.drain(..) { if !matches!(i, Instruction::Label(_) | Instruction::LineNumber(_)) { let l = Label(1000 + real); real += 1; ls.push(l); out.push(Instruction::Label(l)) } out.push(i) }
            let l = Label(2000); ls.push(l); out.push(Instruction::Label(l));
            code.code = out;
            code.catches = vec![Catch { start: ls[a], end: ls[b], handler: ls[c], catch: None }];
            let w = match write(&cl) { Ok(w) => w, Err(_) => { ctx.tag("write: unusual handler rejected"); return Ok(1) } };
            let at = w.windows(body.len()).position(|x| x == body).ok_or("the body is not in the file")? + body.len();
            let want: Vec<u8> = [1, PCS[a], PCS[b], PCS[c], 0].iter().flat_map(|x| x.to_be_bytes()).collect();
            if w[at..at + 10] != want[..] { return Err(format!("exception table {:02x?} instead of {want:02x?}", &w[at..at + 10])) }
            Ok(fnv(&w))
        });
    }
}
/// Reading: every offset value in every table field.
fn read_side(ctx: &Ctx) {
    let code = [0u8, 17, 1, 1, 196, 132, 1, 0, 0, 1, 153, 0xff, 0xf6, 177]; // pcs 0 1 4 10 13, length 14
    let len = 14u16;
    let vals: Vec<u16> = (0..len + 4).chain([255, 256, 32767, 32768, 65534, 65535]).collect();
    let judge = |b: Vec<u8>| -> Result<u64, String> {
        ctx.steps(1); ctx.state(fnv(&b));
        match (parse::parse_class(&b), read(&b)) {
            (Ok(v), Ok(c)) => { same("read as", &v, &abs::class(&c)?)?; ctx.tag("read: valid"); Ok(hash_of(&v)) }
            (Ok(v), Err(e)) => Err(format!("valid tables rejected: {e}; {v:?}")),
            (Err(e), Ok(c)) if e.contains("handler range") && ok_handler(&e, &[0, 1, 4, 10, 13, 14]) => { ctx.tag("read: unusual handler"); let v = abs::class(&c)?; let hs = v.at(7).at(0).at(3).at(0).at(3).clone(); let want = wanted_handler(&e); let got = hs.l().iter().map(|h| [h.at(0).i(), h.at(1).i(), h.at(2).i()]).collect::<Vec<_>>(); if !got.contains(&want) { return Err(format!("a handler {want:?} (instruction numbers) was read as {got:?}")) } Ok(2) }
            (Err(e), Ok(_)) if e.ends_with(&format!("line pc {len}")) => { ctx.tag("read: unspecified"); Ok(2) }
            (Err(e), Ok(c)) => Err(format!("accepted although {e}; read as {:?}", c.methods)),
            (Err(_), Err(_)) => { ctx.tag("read: rejected"); Ok(3) }
        }
    };
    // reversed or empty ranges and handlers at the end of the code are not required to be rejected when every offset is a position
    fn ok_handler(e: &str, pcs: &[u32]) -> bool { let t = e.split("handler range ").nth(1).unwrap(); t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).all(|x| pcs.contains(&x.parse().unwrap())) }
    let pool = || { let mut p = RawPool::new(); let e = p.class("E"); let x = p.utf("x"); let i = p.utf("I"); let sg = p.utf("TT;"); let t = p.utf("LT;"); (p, e, x, i, sg, t) };
    let run = |what: &str, hs: &[[u16; 4]], at: &[(&str, Vec<u8>)]| ctx.case(|| format!("{what} {hs:?} {:?}", at.iter().map(|a| (a.0, hex(&a.1))).collect::<Vec<_>>()), || judge(raw::with_code(pool().0, &code, hs, at, &[])));
    let (_, e, x, i, sg, t) = pool();
    par(vals.len(), |k| {
        let a = vals[k];
        for &b in &vals { for &c in &vals { for ty in [0, e] { if ty != 0 && c % 3 != 0 { continue } run("handler", &[[a, b, c, ty]], &[]) } } }
        for &b in &vals {
            let mut w = u2(1).to_vec(); for y in [a, b, x, i, 65535] { w.extend(u2(y)) } run("variable", &[], &[("LocalVariableTable", w.clone())]);
            let mut w2 = u2(1).to_vec(); for y in [a, b, x, sg, 1] { w2.extend(u2(y)) } run("variable type", &[], &[("LocalVariableTypeTable", w2.clone())]);
            run("both", &[], &[("LocalVariableTable", w), ("LocalVariableTypeTable", { let mut w = u2(2).to_vec(); for y in [a, b, x, sg, 65535, 0, 14, x, sg, 9] { w.extend(u2(y)) } w })]);
            for tag in [0x40u8, 0x41] { let mut w = vec![0, 1, tag, 0, 1]; for y in [a, b, 7] { w.extend(u2(y)) } w.push(0); w.extend(u2(t)); w.extend([0, 0]); run("annotated range", &[], &[("RuntimeVisibleTypeAnnotations", w)]) }
        }
        for tag in 0x42..=0x4Bu8 { for hs in [&[][..], &[[0, 1, 4, 0]], &[[0, 1, 4, 0], [0, 4, 10, e]]] { let mut w = vec![0, 1, tag]; w.extend(u2(a)); if tag >= 0x47 { w.push(9) } w.push(0); w.extend(u2(t)); w.extend([0, 0]); run("annotation target", hs, &[("RuntimeInvisibleTypeAnnotations", w)]) } }
        for n in [1u16, 2] { let mut w = u2(n).to_vec(); w.extend(u2(a)); w.extend(u2(3)); if n == 2 { w.extend(u2(0)); w.extend(u2(65535)) } run("line", &[], &[("LineNumberTable", w)]) }
        let mut w = u2(1).to_vec(); w.extend(u2(4)); w.extend(u2(a)); run("line number", &[], &[("LineNumberTable", w)]);
    });
    // line tables in any order, one or several attributes: each line stays at its instruction, in table order
    let ent: Vec<V> = (0..NI).flat_map(|p| [5i64, 6].map(|l| L(vec![I(p), I(l)]))).collect();
    let ix: Vec<usize> = (0..ent.len()).collect();
    for n in 0..=ctx.pick(3usize, 4) { par(ent.len().pow(n as u32), |k| {
        let mut w = vec![]; word(k, n, &ix, &mut w);
        let l: Vec<V> = w.iter().map(|i| ent[*i].clone()).collect();
        let mut sorted = l.clone(); sorted.sort_by_key(|x| x.at(0).i());
        for split in [false, true] { ctx.case(|| format!("lines {l:?} split {split}"), || { ctx.steps(1); let b = enc::encode(&gen::wrap_code(cv(vec![], l.clone(), vec![], vec![], vec![])), &enc::Ch { split, ..Default::default() }); same("read as", &gen::wrap_code(cv(vec![], sorted.clone(), vec![], vec![], vec![])), &abs::class(&read(&b)?)?)?; Ok(fnv(&b)) }) }
    }) }
}
pub fn c15(ctx: &'static Ctx) -> i32 {
    ctx.rule("write side: every placement of handlers (all ordered pairs), lines, variables (all pairs) and annotation targets over all positions of a five-instruction body, under three ways of labelling, plus all of them at once over bodies with wide branches, switches and the maximal length; compared with the file's offsets and with what is read back. Read side: every offset value in every table field. distinct: hash of file");
    ctx.assume("unspecified: whether reversed or empty handler ranges and handlers or line numbers at the end of the code are errors (when accepted, the offsets must be kept), order between variables with and without descriptor");
    write_side(ctx);
    let words = crate::fam::names_of(gen::codes().into_iter().filter(|c| (3..8).any(|k| !c.at(k).l().is_empty())).map(gen::wrap_code).collect());
    ctx.tag_n("well-known words in tables", words.len() as u64);
    par(words.len(), |k| { ctx.state(hash_of(&words[k])); ctx.case(|| format!("{:?}", words[k]), || super::attrs::both(ctx, &words[k])) });
    let mut many = crate::fam::spread(false); many.extend(crate::fam::spread(true)); ctx.tag_n("references to many positions", many.len() as u64);
    par(many.len(), |k| { ctx.state(hash_of(&many[k])); ctx.case(|| format!("references to many positions, {k}"), || super::attrs::both(ctx, &many[k])) });
    // empty names; code with so many attributes that the tables are the last that fit
    let mut full = vec![];
    for (lv, lvt) in [(true, false), (false, true), (true, true)] { for n in ["", "x"] { let e = |d: &str| vec![L(vec![I(0), I(1), s(n), s(d), I(0)]), L(vec![I(1), I(5), s(n), s(d), I(1)])]; for li in [vec![], vec![L(vec![I(0), I(3)])]] {
        let make = |raws: usize| cv(vec![], li.clone(), if lv { e("LA;") } else { vec![] }, if lvt { e("TT;") } else { vec![] }, (0..raws).map(|_| N("raw", vec![s("Q"), B(vec![])])).collect());
        full.push(make(0)); full.push(make(1));
        if n == "x" { let room = 65535 - lv as usize - lvt as usize - !li.is_empty() as usize; full.push(make(room)); full.push(make(room - 1)) }
    } } }
    full.push(cv(vec![], vec![L(vec![I(0), I(3)])], vec![], vec![], (0..65534).map(|_| N("raw", vec![s("Q"), B(vec![])])).collect()));
    go(ctx, "empty names and full attribute lists", full, 1);
    programs(ctx);
    impossible(ctx);
    unusual(ctx);
    read_side(ctx);
    super::attrs::code_words(ctx, ctx.pick(4, 5), true);
    ctx.finish("model_checking")
}
