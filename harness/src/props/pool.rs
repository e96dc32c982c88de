//! C09 constant pool insertion histories, C10 bootstrap methods.
use super::c01::{read, same, write};
use crate::conc::Table;
use crate::engine::*;
use crate::parse::{Cp, Pool, Rd};
use crate::v::*;
use crate::{abs, conc, enc, gen, parse};
use coffer::cp::{ConstEntryRef, MapCp, RawConstantEntry, StrRef, VecCp};
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};

/// One insertion: what it inserts (role and value) and how.
struct Op { want: V, f: Box<dyn Fn(&mut VecCp) -> u16 + Send + Sync> }
fn op(want: V, f: impl Fn(&mut VecCp) -> u16 + Send + Sync + 'static) -> Op { Op { want, f: Box::new(f) } }
fn ops() -> Vec<Op> {
    let mut o = vec![];
    let a = || conc::ws(&s("I"));
    o.push(op(N("utf8", vec![s("I")]), move |c| c.insert_wtf8(a())));
    o.push(op(N("utf8", vec![S(vec![0xD800])]), |c| c.insert_wtf8(conc::w(&[0xD800]))));
    o.push(op(N("cls", vec![s("I")]), move |c| c.insert_class(a())));
    o.push(op(N("cls", vec![s("I")]), move |c| c.insert_constant(Constant::Class(a()))));
    o.push(op(N("cls", vec![s("I")]), move |c| c.insert_indirect_str(7, a())));
    o.push(op(N("string", vec![s("I")]), move |c| c.insert_indirect_str(8, a())));
    o.push(op(N("string", vec![s("I")]), move |c| c.insert_constant(Constant::String(a()))));
    o.push(op(N("module", vec![s("I")]), move |c| c.insert_indirect_str(19, a())));
    o.push(op(N("package", vec![s("I")]), move |c| c.insert_indirect_str(20, a())));
    o.push(op(N("package", vec![s("I")]), move |c| c.insert_package(a())));
    o.push(op(N("nt", vec![s("I"), s("I")]), move |c| c.insert_nameandtype(a(), a())));
    o.push(op(N("nt", vec![s("I"), s("J")]), move |c| c.insert_nameandtype(a(), conc::ws(&s("J")))));
    for x in [0, 1, i32::MIN] { o.push(op(N("int", vec![I(x as i64)]), move |c| c.insert_int(x))) }
    o.push(op(N("int", vec![I(1)]), |c| c.insert_constant(Constant::I32(1))));
    for x in [0u32, 1, 0x8000_0000, 0x7fc0_0000, 0x7fc0_0001] { o.push(op(N("float", vec![I(x as i64)]), move |c| c.insert_float(f32::from_bits(x)))) }
    for x in [0i64, 1] { o.push(op(N("long", vec![I(x)]), move |c| c.insert_long(x))) }
    for x in [0u64, 1, 1 << 63, (0x7ff8 << 48) | 1] { o.push(op(N("double", vec![I(x as i64)]), move |c| c.insert_double(f64::from_bits(x)))) }
    for m in [gen::member("field", "I", "I", "I"), gen::member("field", "I", "I", "J"), gen::member("method", "I", "I", "()I"), gen::member("imethod", "I", "I", "()I")] { let n = m.clone(); o.push(op(m, move |c| c.insert_member(conc::member(&n)))) }
    o.push(op(N("mtype", vec![s("()I")]), |c| c.insert_constant(conc::konst(&N("mtype", vec![s("()I")])))));
    for h in [gen::mh(1, gen::member("field", "I", "I", "I")), gen::mh(2, gen::member("field", "I", "I", "I")), gen::mh(6, gen::member("imethod", "I", "I", "()I"))] {
        let (x, y) = (h.clone(), h.clone());
        o.push(op(h.clone(), move |c| c.insert_method_handle(conc::mh(&x))));
        if h.at(0).i() == 1 { o.push(op(h, move |c| c.insert_constant(conc::konst(&y)))) }
    }
    for d in [gen::dynv("I", "I", gen::bsm_handle(0), vec![]), gen::dynv("I", "I", gen::bsm_handle(1), vec![]), gen::dynv("I", "()I", gen::bsm_handle(0), vec![]), gen::dynv("I", "I", gen::bsm_handle(0), vec![gen::kint(1)])] { let e = d.clone(); o.push(op(d, move |c| c.insert_dynamic(conc::dynamic(&e)))) }
    o
}
/// Insertions whose parts are made of the same few texts.
fn alike() -> Vec<Op> {
    let mut o = vec![]; let t = ["I", "J", "()I"];
    for a in t {
        o.push(op(N("utf8", vec![s(a)]), move |c| c.insert_wtf8(conc::ws(&s(a)))));
        o.push(op(N("cls", vec![s(a)]), move |c| c.insert_class(conc::ws(&s(a)))));
        o.push(op(N("string", vec![s(a)]), move |c| c.insert_constant(Constant::String(conc::ws(&s(a))))));
        for b in t { o.push(op(N("nt", vec![s(a), s(b)]), move |c| c.insert_nameandtype(conc::ws(&s(a)), conc::ws(&s(b))))) }
    }
    for a in &t[..2] { for b in &t[..2] {
        for d in &t[..2] { let m = gen::member("field", a, b, d); let n = m.clone(); o.push(op(m, move |c| c.insert_member(conc::member(&n)))) }
        for k in ["method", "imethod"] { for d in ["()I", "()J"] { let m = gen::member(k, a, b, d); let n = m.clone(); o.push(op(m, move |c| c.insert_member(conc::member(&n)))) } }
        for k in [1, 3] { let h = gen::mh(k, gen::member("field", a, b, a)); let n = h.clone(); o.push(op(h, move |c| c.insert_method_handle(conc::mh(&n)))) }
        let d = gen::dynv(a, b, gen::bsm_handle(0), vec![]); let e = d.clone(); o.push(op(d, move |c| c.insert_dynamic(conc::dynamic(&e))));
    } }
    o
}
/// What the pool says at `i`; bootstrap methods as their table index.
fn at(p: &Pool, i: u16) -> Result<V, String> {
    Ok(match p.get(i)? {
        Cp::Utf8(x) => N("utf8", vec![S(x.clone())]), Cp::Module(_) => N("module", vec![p.module(i)?]), Cp::Package(_) => N("package", vec![p.package(i)?]),
        Cp::Nt(..) => { let (a, b) = p.nt(i)?; N("nt", vec![a, S(b)]) }
        Cp::Field(..) | Cp::Method(..) | Cp::IMethod(..) => p.member(i)?,
        Cp::Dyn(b, n) | Cp::Indy(b, n) => { let (a, d) = p.nt(*n)?; if parse::desc_ok(&d, true) != matches!(p.get(i)?, Cp::Indy(..)) { return Err(format!("descriptor {:?} in the wrong kind of dynamic entry", S(d))) } N("dyn", vec![a, S(d), I(*b as i64)]) }
        _ => p.loadable(i, 0)?,
    })
}
/// What coffer's reader says at `i`, in the role `want` has.
fn reader_at(c: &mut MapCp, i: u16, want: &V) -> Result<V, String> {
    let e = || format!("reader finds no {} at {i}", want.name());
    let utf = |x: Option<Cow<'static, wtf_8::Wtf8Str>>| x.map(|x| abs::ws(&x)).ok_or_else(e);
    let k = want.name();
    Ok(match k {
        "utf8" => N(k, vec![utf(c.read_wtf8(i))?]), "cls" => { let x = utf(c.read_class(i))?; if utf(c.read_indirect_str(7, i))? != x { return Err("read_class and read_indirect_str differ".into()) } N(k, vec![x]) }
        "string" => N(k, vec![utf(c.read_indirect_str(8, i))?]), "module" => N(k, vec![utf(c.read_indirect_str(19, i))?]), "package" => N(k, vec![utf(c.read_indirect_str(20, i))?]),
        "nt" => { let (a, t) = c.read_nameandtype(i).ok_or_else(e)?; N(k, vec![abs::ws(&a), abs::ty(&t)]) }
        "int" => N(k, vec![I(c.read_int(i).ok_or_else(e)? as i64)]), "float" => N(k, vec![I(c.read_float(i).ok_or_else(e)?.to_bits() as i64)]), "long" => N(k, vec![I(c.read_long(i).ok_or_else(e)?)]), "double" => N(k, vec![I(c.read_double(i).ok_or_else(e)?.to_bits() as i64)]),
        "field" | "method" | "imethod" => abs::member(&c.read_member(i).ok_or_else(e)?), "mh" => abs::mh(&c.read_method_handle(i).ok_or_else(e)?),
        "mtype" => abs::konst(&c.read_constant(i).ok_or_else(e)?),
        "dyn" => { let m = parse::desc_ok(want.at(1).st(), true); let d = if m { c.read_invokedynamic(i) } else { c.read_dynamic(i) }.ok_or_else(e)?; N("dyn", vec![abs::ws(&d.name), abs::ty(&d.descriptor), want.at(2).clone()]) }
        k => panic!("{k}"),
    })
}
/// Accessors of other kinds must not find anything at `i`.
fn wrong_roles(c: &mut MapCp, i: u16, want: &V) -> Result<(), String> {
    let k = want.name();
    let bad = |n: &str| Err(format!("{n} finds something at {i}, which is {want:?}"));
    if k != "utf8" && c.read_wtf8(i).is_some() { return bad("read_wtf8") }
    for (t, n) in [(7, "cls"), (8, "string"), (19, "module"), (20, "package")] { if k != n && c.read_indirect_str(t, i).is_some() { return bad(n) } }
    if k != "nt" && c.read_nameandtype(i).is_some() { return bad("read_nameandtype") }
    if k != "int" && c.read_int(i).is_some() { return bad("read_int") }
    if k != "float" && c.read_float(i).is_some() { return bad("read_float") }
    if k != "long" && c.read_long(i).is_some() { return bad("read_long") }
    if k != "double" && c.read_double(i).is_some() { return bad("read_double") }
    if !matches!(k, "field" | "method" | "imethod") && c.read_member(i).is_some() { return bad("read_member") }
    if k != "mh" && c.read_method_handle(i).is_some() { return bad("read_method_handle") }
    let indy = k == "dyn" && parse::desc_ok(want.at(1).st(), true);
    if (k != "dyn" || indy) && c.read_dynamic(i).is_some() { return bad("read_dynamic") }
    if !indy && c.read_invokedynamic(i).is_some() { return bad("read_invokedynamic") }
    let konst = matches!(k, "int" | "float" | "long" | "double" | "cls" | "string" | "mtype" | "mh" | "field" | "method" | "imethod");
    match c.read_constant(i) { Some(x) if !konst => Err(format!("read_constant finds {x:?} at {i}, which is {want:?}")), Some(x) if abs::konst(&x) != *want => Err(format!("read_constant reads {x:?} at {i}, which is {want:?}")), None if konst => Err(format!("read_constant does not find {want:?} at {i}")), _ => Ok(()) }
}
fn history(ctx: &Ctx, ops: &[Op], w: &[usize]) -> Result<u64, String> {
    let mut cp = VecCp::new();
    let idx: Vec<u16> = w.iter().map(|k| (ops[*k].f)(&mut cp)).collect();
    ctx.steps(w.len() as u64);
    let mut b = vec![]; cp.write_to(&mut b).map_err(|e| format!("pool not written: {e}"))?;
    ctx.state(fnv(&b));
    let mut r = Rd::new(&b);
    let p = Pool::parse(&mut r).map_err(|e| format!("written pool is malformed: {e}; {}", hex(&b)))?; r.end()?;
    // no two entries of the pool are the same
    for i in 1..p.e.len() { for j in 1..i { if p.e[i] == p.e[j] && p.e[i] != Cp::Gap { return Err(format!("entries {j} and {i} are both {:?}", p.e[i])) } } }
    let mut bs: Vec<(V, i64)> = vec![];
    for (n, k) in w.iter().enumerate() {
        let want = &ops[*k].want; let got = at(&p, idx[n]).map_err(|e| format!("index {} returned for {want:?}: {e}; pool {:?}", idx[n], p.e))?;
        if want.name() == "dyn" {
            if got.name() != "dyn" || got.at(0) != want.at(0) || got.at(1) != want.at(1) { return Err(format!("index {} returned for {want:?} is {got:?}", idx[n])) }
            let t = got.at(2).i();
            for (b, u) in &bs { if (b == want.at(2)) != (*u == t) { return Err(format!("bootstrap methods {b:?} and {:?} have indices {u} and {t}", want.at(2))) } }
            bs.push((want.at(2).clone(), t));
        } else if got != *want { return Err(format!("index {} returned for {want:?} is {got:?}", idx[n])) }
        for m in 0..n { if (ops[w[m]].want == *want) != (idx[m] == idx[n]) { return Err(format!("{:?} and {want:?} have indices {} and {}", ops[w[m]].want, idx[m], idx[n])) } }
    }
    let mut c = MapCp::read_from(&mut &b[..]).map_err(|e| format!("written pool does not read back: {e}"))?;
    for (n, k) in w.iter().enumerate() { same("reader", &ops[*k].want, &reader_at(&mut c, idx[n], &ops[*k].want)?)?; wrong_roles(&mut c, idx[n], &ops[*k].want)? }
    for i in 0..=p.e.len() { let there = i < p.e.len() && p.e[i] != Cp::Gap; if c.read_raw(i as u16).is_some() != there { return Err(format!("entry {i} of {:?}: reader {:?}", p.e, c.read_raw(i as u16))) } }
    Ok(fnv(&b))
}
pub fn c09(ctx: &'static Ctx) -> i32 {
    ctx.rule("every sequence of insertions up to the stated length over the insertion alphabet, on the real pool writer; the written pool is decoded independently and through the reader's accessors; states: distinct pools written; distinct: hash of written pool");
    let o = ops(); let n = o.len();
    let depth = ctx.pick(4, 5);
    ctx.note("insertions in the alphabet", n); ctx.note("history length", depth);
    for len in 0..=depth {
        let total = n.pow(len as u32);
        // one batch per prefix of len-1 insertions
        par(total.div_ceil(n), |k| {
            let mut w = vec![];
            let mut x = k; for _ in 1..len.max(1) { w.push(x % n); x /= n }
            if len == 0 { ctx.case(|| "empty pool".into(), || history(ctx, &o, &[])); return }
            for last in 0..n { w.push(last); ctx.case(|| format!("{:?}", w.iter().map(|k| &o[*k].want).collect::<Vec<_>>()), || history(ctx, &o, &w)); w.pop(); }
        });
    }
    // names, owners and descriptors that are each other's text
    let o2 = alike(); let n = o2.len(); let depth = ctx.pick(3, 4);
    ctx.note("insertions that share texts", n); ctx.note("their history length", depth);
    for len in 1..=depth { par(n.pow(len as u32 - 1), |k| {
        let mut w = vec![]; let mut x = k; for _ in 1..len { w.push(x % n); x /= n }
        for last in 0..n { w.push(last); ctx.case(|| format!("{:?}", w.iter().map(|k| &o2[*k].want).collect::<Vec<_>>()), || history(ctx, &o2, &w)); w.pop(); }
    }) }
    // long texts that differ in one place, in every role, owned and borrowed
    let mut lens: Vec<usize> = (2..=ctx.pick(320, 2200)).collect();
    for k in 9..16 { for d in [-1i64, 0, 1] { lens.push(((1i64 << k) + d) as usize) } } lens.extend([10_000, 21_844, 21_845, 21_846, 50_000, 65_533, 65_534, 65_535]); lens.sort(); lens.dedup();
    ctx.note("long texts", format!("{} lengths, 12 roles, 6 variants each inserted twice", lens.len()));
    par(lens.len() * 12, |j| {
        let (n, role) = (lens[j / 12], j % 12);
        let pre = match role { 6 | 9 | 11 => 2, _ => 0 }; // the L and ; of a descriptor
        if n <= pre + 2 || (role >= 9 && n > 65_500) { return }
        let base: Vec<u16> = (0..n - pre).map(|i| 97 + (i * 7 % 23) as u16).collect();
        let vary = |at: usize| { let mut b = base.clone(); b[at] = 'z' as u16 + 1; b };
        let l = base.len();
        let texts = [base.clone(), vary(0), vary(l / 2), vary(l - 1), base[..l - 1].to_vec(), base.clone()];
        let o: Vec<Op> = texts.into_iter().enumerate().map(|(v, t)| {
            let mk = move |x: &[u16]| -> Cow<'static, wtf_8::Wtf8Str> { let w = conc::w(x); if v == 5 { Cow::Borrowed(Box::leak(Box::new(w.into_owned()))) } else { w } };
            let v = S(t.clone()); let de = { let mut d = vec!['L' as u16]; d.extend(&t); d.push(';' as u16); d };
            match role {
                0 => op(N("utf8", vec![v]), move |c| c.insert_wtf8(mk(&t))), 1 => op(N("cls", vec![v]), move |c| c.insert_class(mk(&t))),
                2 => op(N("string", vec![v]), move |c| c.insert_constant(Constant::String(mk(&t)))), 3 => op(N("module", vec![v]), move |c| c.insert_indirect_str(19, mk(&t))),
                4 => op(N("package", vec![v]), move |c| c.insert_package(mk(&t))), 5 => op(N("nt", vec![v, s("I")]), move |c| c.insert_nameandtype(mk(&t), conc::ws(&s("I")))),
                6 => op(N("nt", vec![s("n"), S(de.clone())]), move |c| c.insert_nameandtype(conc::ws(&s("n")), mk(&de))),
                7 => { let m = N("field", vec![v, s("f"), s("I")]); let x = m.clone(); op(m, move |c| c.insert_member(MemberRef { owner: mk(&t), ..conc::member(&x) })) }
                8 => { let m = N("imethod", vec![s("O"), v, s("()I")]); let x = m.clone(); op(m, move |c| c.insert_member(MemberRef { name: mk(&t), ..conc::member(&x) })) }
                9 => { let mut d = vec!['(' as u16]; d.extend(&de); d.extend([')' as u16, 'V' as u16]); let m = N("mtype", vec![S(d)]); let x = m.clone(); op(m, move |c| c.insert_constant(conc::konst(&x))) }
                10 => { let h = gen::mh(6, N("method", vec![s("O"), v, s("()I")])); let x = h.clone(); op(h, move |c| c.insert_method_handle(conc::mh(&x))) }
                _ => { let d = N("dyn", vec![s("d"), S(de), N("bsm", vec![gen::bsm_handle(0), L(vec![N("string", vec![v])])])]); let x = d.clone(); op(d, move |c| c.insert_dynamic(conc::dynamic(&x))) }
            }
        }).collect();
        for w in [[0, 1, 2, 3, 4, 5, 5, 4, 3, 2, 1, 0], [5, 0, 4, 4, 3, 1, 2, 2, 1, 3, 0, 5]] { ctx.case(|| format!("texts of {n} units in role {role}, order {w:?}"), || history(ctx, &o, &w)) }
    });
    // every kind of entry at every index: pools of one kind of value, all distinct, up to the limit
    type Mk = (&'static str, u32, fn(u32) -> V, fn(&mut VecCp, &V) -> u16);
    fn nm(k: &str, i: u32) -> V { s(&format!("{k}{i}")) }
    let kinds: Vec<Mk> = vec![
        ("int", 1, |i| N("int", vec![I(i as i64)]), |c, v| c.insert_int(v.at(0).i() as i32)),
        ("float", 1, |i| N("float", vec![I(i as i64)]), |c, v| c.insert_float(f32::from_bits(v.at(0).i() as u32))),
        ("long", 2, |i| N("long", vec![I(i as i64)]), |c, v| c.insert_long(v.at(0).i())),
        ("double", 2, |i| N("double", vec![I((i as i64) << 40)]), |c, v| c.insert_double(f64::from_bits(v.at(0).i() as u64))),
        ("utf8", 1, |i| N("utf8", vec![nm("u", i)]), |c, v| c.insert_wtf8(conc::ws(v.at(0)))),
        ("class", 2, |i| N("cls", vec![nm("c", i)]), |c, v| c.insert_class(conc::ws(v.at(0)))),
        ("string", 2, |i| N("string", vec![nm("t", i)]), |c, v| c.insert_indirect_str(8, conc::ws(v.at(0)))),
        ("module", 2, |i| N("module", vec![nm("m", i)]), |c, v| c.insert_indirect_str(19, conc::ws(v.at(0)))),
        ("package", 2, |i| N("package", vec![nm("p", i)]), |c, v| c.insert_package(conc::ws(v.at(0)))),
        ("name and type", 2, |i| N("nt", vec![nm("n", i), s("I")]), |c, v| c.insert_nameandtype(conc::ws(v.at(0)), conc::ws(v.at(1)))),
        ("field", 3, |i| N("field", vec![s("O"), nm("f", i), s("I")]), |c, v| c.insert_member(conc::member(v))),
        ("method", 3, |i| N("method", vec![s("O"), nm("f", i), s("()I")]), |c, v| c.insert_member(conc::member(v))),
        ("interface method", 3, |i| N("imethod", vec![s("O"), nm("f", i), s("()I")]), |c, v| c.insert_member(conc::member(v))),
        ("method type", 2, |i| N("mtype", vec![s(&format!("(L{i};)I"))]), |c, v| c.insert_constant(conc::konst(v))),
        ("method handle of every kind", 4, |i| { let k = 1 + (i as i64 * 5 + i as i64 / 9) % 9; gen::mh(k, N(if k < 5 { "field" } else if k == 9 { "imethod" } else { "method" }, vec![s("O"), if k == 8 { s("<init>") } else { nm("f", i) }, if k < 5 { s("I") } else if k == 8 { s(&format!("(LP{i};)V")) } else { s("()I") }])) }, |c, v| c.insert_method_handle(conc::mh(v))),
        ("method handle", 4, |i| gen::mh(6, N("method", vec![s("O"), nm("f", i), s("()I")])), |c, v| c.insert_method_handle(conc::mh(v))),
    ];
    let shifts = ctx.pick(4, 12);
    ctx.note("every kind at every index", format!("{} kinds, {shifts} alignments, full pools", kinds.len()));
    par(kinds.len() * shifts as usize, |j| {
        let (name, size, mk, ins) = &kinds[j / shifts as usize]; let sh = (j % shifts as usize) as u32;
        ctx.case(|| format!("{sh} other entries, then {name} entries until the pool is full"), || {
            let mut cp = VecCp::new();
            let mut done: Vec<(u16, V)> = vec![];
            for k in 0..sh { let v = N("utf8", vec![nm("z", k)]); done.push((cp.insert_wtf8(conc::ws(v.at(0))), v)) }
            // leave room for what the first of them shares with the others
            let mut n = 0; let mut slots = sh + 5;
            while slots + size <= 65534 { let v = mk(n); done.push((ins(&mut cp, &v), v)); slots += size; n += 1 }
            // again: the same indices
            for (i, v) in &done[sh as usize..] { let k = ins(&mut cp, v); if k != *i { return Err(format!("{v:?} is at {i} and, inserted again, at {k}")) } }
            ctx.steps(2 * n as u64);
            let mut b = vec![]; cp.write_to(&mut b).map_err(|e| format!("not written: {e}"))?;
            let mut r = Rd::new(&b); let p = Pool::parse(&mut r).map_err(|e| format!("written pool is malformed: {e}"))?; r.end()?;
            let mut c = MapCp::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
            for (i, v) in &done { same("entry", v, &at(&p, *i).map_err(|e| format!("index {i} returned for {v:?}: {e}"))?)?; same("reader", v, &reader_at(&mut c, *i, v)?)? }
            ctx.more(n as u64); Ok(fnv(&b))
        });
    });
    // size limit
    let words = { let mut v: Vec<Vec<usize>> = vec![vec![]]; for l in 1..=3usize { for k in 0..4usize.pow(l as u32) { let mut x = k; v.push((0..l).map(|_| { let d = x % 4; x /= 4; d }).collect()) } } v };
    let fills: Vec<u32> = (65526..=65537).collect();
    ctx.note("size limit", format!("{} fill levels x {} words", fills.len(), words.len()));
    par(fills.len() * words.len(), |k| {
        let fill = fills[k / words.len()]; let w = &words[k % words.len()];
        ctx.case(|| format!("{fill} ints then {w:?} (0 int, 1 long, 2 utf8, 3 repeated int)"), || {
            let mut cp = VecCp::new();
            for i in 0..fill { let x = cp.insert_int(i as i32); if i < 65534 && x as u32 != i + 1 && ctx.thorough() { return Err(format!("index {x} for insertion {i}")) } }
            let mut slots = fill; let mut last = vec![];
            for (n, x) in w.iter().enumerate() {
                let (i, v, sz) = match x { 0 => (cp.insert_int(-1 - n as i32), N("int", vec![I(-1 - n as i64)]), 1), 1 => (cp.insert_long(n as i64), N("long", vec![I(n as i64)]), 2), 2 => (cp.insert_wtf8(conc::ws(&s(&format!("x{n}")))), N("utf8", vec![s(&format!("x{n}"))]), 1), _ => (cp.insert_int(5), gen::kint(5), 0) };
                slots += sz; last.push((i, v));
            }
            ctx.steps(fill as u64 + w.len() as u64);
            let mut b = vec![];
            let r = cp.write_to(&mut b);
            if slots + 1 > 65535 { return if r.is_ok() { Err(format!("a pool of {slots} slots was written")) } else { Ok(1) } }
            r.map_err(|e| format!("a pool of {slots} slots was rejected: {e}"))?;
            if b[..2] != ((slots + 1) as u16).to_be_bytes() { return Err(format!("constant_pool_count {:?} for {slots} slots", &b[..2])) }
            let mut rd = Rd::new(&b); let p = Pool::parse(&mut rd)?; rd.end()?;
            let mut c = MapCp::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
            for (i, v) in last { same("at the limit", &v, &at(&p, i)?)?; same("reader at the limit", &v, &reader_at(&mut c, i, &v)?)? }
            for i in [0u16, 5, 255, 256, 32767, 65000] { same("early entry", &gen::kint(i as i64), &at(&p, i + 1)?)? }
            Ok(slots as u64)
        });
    });
    // single entries: owned, borrowed and raw forms agree
    let strs = gen::strings();
    let mut pairs: Vec<(RawConstantEntry, ConstEntryRef<'static>, u16)> = vec![];
    for x in &strs { let w = conc::ws(x).into_owned(); let l: &'static wtf_8::Wtf8Str = Box::leak(Box::new(w.clone())); pairs.push((RawConstantEntry::WTF8(Cow::Owned(w)), ConstEntryRef::UTF8(StrRef(l)), 1)) }
    for x in [0, 1, -1, i32::MIN, i32::MAX] { pairs.push((RawConstantEntry::Int(x), ConstEntryRef::Int(x), 1)) }
    for x in [0u32, 1 << 31, 0x7fc0_0001, 0x7f80_0001] { let f = f32::from_bits(x); pairs.push((RawConstantEntry::Float(TotalF32(f)), ConstEntryRef::Float(f), 1)) }
    for x in [0, -1, i64::MIN, i64::MAX, 1 << 32] { pairs.push((RawConstantEntry::Long(x), ConstEntryRef::Long(x), 2)) }
    for x in [0u64, 1 << 63, (0x7ff8 << 48) | 1, (0x7ff0 << 48) | 1] { let f = f64::from_bits(x); pairs.push((RawConstantEntry::Double(TotalF64(f)), ConstEntryRef::Double(f), 2)) }
    for a in [0u16, 1, 255, 256, 65535] {
        use {ConstEntryRef as E, RawConstantEntry as X};
        pairs.push((X::Class(a), E::Class(a), 1)); pairs.push((X::String(a), E::String(a), 1)); pairs.push((X::MethodType(a), E::MethodType(a), 1)); pairs.push((X::Module(a), E::Module(a), 1)); pairs.push((X::Package(a), E::Package(a), 1));
        for b in [0u16, 1, 256, 65535] { pairs.push((X::Field(a, b), E::Field(a, b), 1)); pairs.push((X::Method(a, b), E::Method(a, b), 1)); pairs.push((X::InterfaceMethod(a, b), E::InterfaceMethod(a, b), 1)); pairs.push((X::NameAndType(a, b), E::NameAndType(a, b), 1)); pairs.push((X::Dynamic(a, b), E::Dynamic(a, b), 1)); pairs.push((X::InvokeDynamic(a, b), E::InvokeDynamic(a, b), 1)); }
        for k in [0u8, 1, 9, 255] { pairs.push((X::MethodHandle(k, a), E::MethodHandle(k, a), 1)) }
    }
    par(pairs.len(), |k| { let (r, e, size) = &pairs[k]; ctx.case(|| format!("{r:?}"), || {
        let (mut b, mut d) = (vec![], vec![]);
        r.write_to(&mut b).map_err(|e| e.to_string())?; e.write_to(&mut d).map_err(|e| e.to_string())?; ctx.steps(3);
        if b != d { return Err(format!("owned entry writes {}, borrowed entry writes {}", hex(&b), hex(&d))) }
        if r.size() != *size || r.is_wide() != (*size == 2) { return Err(format!("size {}", r.size())) }
        let mut x = &b[..]; let back = RawConstantEntry::read_from(&mut x).map_err(|e| e.to_string())?;
        if back != *r || !x.is_empty() { return Err(format!("reads back as {back:?}")) }
        Ok(fnv(&b))
    }) });
    // every tag byte
    par(256, |t| ctx.case(|| format!("tag {t}"), || {
        let mut b = vec![0, 2, t as u8]; b.extend([0u8; 16]);
        let ok = MapCp::read_from(&mut &b[..]).is_ok(); ctx.steps(1);
        let want = matches!(t, 1 | 3..=12 | 15..=20);
        if ok != want { return Err(format!("tag {t} accepted: {ok}")) }
        Ok(t as u64)
    }));
    ctx.finish("model_checking")
}

// ------------------------------------------------------------------ C10
/// All dynamic values over `n` nodes: node i has a handle, and arguments among constants and earlier nodes.
fn nodes() -> Vec<V> {
    let b = gen::bsm_handle;
    let consts = [gen::kint(9), N("long", vec![I(9)]), N("string", vec![s("q")])];
    let mut lvl: Vec<V> = vec![];
    // level 0
    for (n, d) in [("a", "I"), ("a", "J"), ("b", "LA;"), ("b", "I")] { for h in 0..2 { lvl.push(gen::dynv(n, d, b(h), vec![])); if h == 0 { lvl.push(gen::dynv(n, d, b(h), vec![consts[0].clone()])) } } }
    let l0 = lvl.clone();
    let mut l1 = vec![];
    for x in &l0 { for h in 0..2 { l1.push(gen::dynv("c", "I", b(h), vec![x.clone()])) } l1.push(gen::dynv("a", "I", b(0), vec![consts[1].clone(), x.clone()])); for y in &l0 { l1.push(gen::dynv("c", "D", b(0), vec![x.clone(), y.clone()])) } }
    let mut l2 = vec![];
    for x in l1.iter() { l2.push(gen::dynv("e", "I", b(0), vec![x.clone()])); l2.push(gen::dynv("e", "LA;", b(1), vec![l0[0].clone(), x.clone(), consts[2].clone(), x.clone()])) }
    let mut all = l0; all.extend(l1); all.extend(l2);
    all
}
/// A dynamic value, and its variations in one component each.
fn family() -> Vec<V> {
    let m = |o: &str, n: &str, d: &str| gen::member("method", o, n, d);
    let h = gen::mh(6, m("B", "b", "()V"));
    let a = vec![gen::kint(1), N("string", vec![s("q")])];
    let mut v = vec![gen::dynv("n", "I", h.clone(), a.clone()), gen::dynv("m", "I", h.clone(), a.clone()), gen::dynv("n", "J", h.clone(), a.clone())];
    for k in [gen::mh(6, m("C", "b", "()V")), gen::mh(6, m("B", "c", "()V")), gen::mh(6, m("B", "b", "()I")), gen::mh(6, gen::member("imethod", "B", "b", "()V")), gen::mh(5, m("B", "b", "()V")), gen::mh(7, m("B", "b", "()V")), gen::mh(1, gen::member("field", "B", "b", "I")), gen::mh(2, gen::member("field", "B", "b", "I"))] { v.push(gen::dynv("n", "I", k, a.clone())) }
    let q = N("string", vec![s("q")]);
    for x in [vec![], vec![a[0].clone()], vec![a[1].clone()], vec![a[1].clone(), a[0].clone()], vec![a[0].clone(), a[0].clone(), a[1].clone()], vec![a[0].clone(), a[1].clone(), a[1].clone()], vec![gen::kint(2), q.clone()], vec![N("long", vec![I(1)]), q.clone()], vec![N("float", vec![I(1)]), q.clone()], vec![N("double", vec![I(1)]), q.clone()], vec![gen::kint(1), N("cls", vec![s("q")])], vec![gen::kint(1), N("string", vec![s("r")])], vec![gen::kint(1), N("mtype", vec![s("()V")])], vec![gen::kint(1), N("mtype", vec![s("()I")])], vec![gen::kint(1), h.clone()], vec![gen::kint(1), gen::mh(5, m("B", "b", "()V"))], vec![N("float", vec![I(0)]), q.clone()], vec![N("float", vec![I(1 << 31)]), q.clone()]] { v.push(gen::dynv("n", "I", h.clone(), x)) }
    v
}
/// Uses of a dynamic constant in a method body.
fn uses(d: &V) -> Vec<V> {
    let m = |t: &str| { let mut x = d.l().clone(); x[1] = s(t); N("dyn", x) };
    vec![N("push", vec![d.clone()]), N("indy", vec![m("()V")]), N("ref", vec![I(178), d.clone()]), N("ref", vec![I(184), d.clone()]), N("itf", vec![d.clone(), I(1)]), N("new", vec![d.clone()]), N("newarr", vec![d.clone()]), N("cast", vec![I(192), d.clone()]), N("multi", vec![d.clone(), I(2)])]
}
fn body(i: Vec<V>) -> V { let mut i = i; i.push(gen::ret()); gen::wrap_code(gen::codev(i, vec![], vec![], vec![], vec![], vec![])) }
pub fn c10(ctx: &'static Ctx) -> i32 {
    ctx.rule("every dynamic value of a bounded grammar (two handles, arguments constant or dynamic, nested up to three levels, shared and equal nodes), alone and in ordered pairs/triples of uses, with every form of declared table; written, parsed independently, read and rewritten four times; and every file with one bootstrap index out of the table; distinct: hash of file");
    let ds = nodes();
    let mut cl: Vec<V> = vec![];
    for d in &ds { for u in uses(d) { cl.push(body(vec![u])) } }
    // pairs of uses (mixed condy/indy), over representatives
    let reps: Vec<&V> = ds.iter().step_by(ds.len() / ctx.pick(40, 80)).collect();
    for a in &reps { for b in &reps { for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 1), (3, 0)] { cl.push(body(vec![uses(a)[x].clone(), uses(b)[y].clone()])) } } }
    let few: Vec<&V> = reps.iter().step_by(reps.len() / ctx.pick(8, 14)).copied().collect();
    for a in &few { for b in &few { for c in &few { for m in 0..8 { cl.push(body(vec![uses(a)[m & 1].clone(), uses(b)[m >> 1 & 1].clone(), uses(c)[m >> 2].clone()])) } } } }
    // two methods
    for a in &few { for b in &few { let c1 = body(vec![uses(a)[0].clone()]); let c2 = body(vec![uses(b)[1].clone()]); let mut v = c1.l().clone(); let ms = vec![c1.at(7).at(0).clone(), c2.at(7).at(0).clone()]; v[7] = L(ms); cl.push(N("class", v)) } }
    // values that differ in one component only, at every depth: nothing may be merged
    let fam = family();
    let mut depth: Vec<Vec<V>> = vec![fam.clone()];
    for d in 1..ctx.pick(3, 4) { let p = &depth[d - 1]; depth.push(p.iter().map(|x| gen::dynv("w", "I", gen::bsm_handle(0), vec![x.clone()])).collect()) }
    for l in &depth { for (i, a) in l.iter().enumerate() { for (j, b) in l.iter().enumerate() { if i == j || (!ctx.thorough() && i != 0 && j != 0) { continue } for (x, y) in [(0, 0), (0, 1), (1, 1)] { cl.push(body(vec![uses(a)[x].clone(), uses(b)[y].clone()])) } cl.push(body(vec![uses(&gen::dynv("pair", "I", gen::bsm_handle(1), vec![a.clone(), b.clone()]))[0].clone()])) } } }
    ctx.note("values differing in one component", fam.len());
    ctx.note("classes", cl.len()); ctx.note("dynamic values", ds.len());
    // chains of bootstrap arguments: 255 levels must work, whatever is beyond must not crash
    let mut chain = gen::dynv("z", "I", gen::bsm_handle(0), vec![]);
    for k in 1..30 { chain = gen::dynv("z", "I", gen::bsm_handle(k % 3), vec![chain]); cl.push(body(vec![N("push", vec![chain.clone()])])); }
    let tables = [Table::Absent, Table::Empty, Table::Full, Table::Unused, Table::Two];
    par(cl.len(), |k| {
        let v = &cl[k]; ctx.state(hash_of(v));
        let mut bs = vec![]; conc::collect_bsms(v, &mut bs);
        for t in tables.iter().map(|t| (*t, 0)).chain([(Table::Full, 1), (Table::Full, 2), (Table::Full, 3)]) {
            ctx.case(|| format!("{t:?} {v:?}"), || {
                let mut c = conc::class_with(v, t.0);
                // variants of a full table: reversed, with duplicates, first in the list
                if t.1 > 0 { let p = c.attributes.iter().position(|a| matches!(a, ClassAttribute::BootstrapMethods(_))).unwrap(); let ClassAttribute::BootstrapMethods(mut b) = c.attributes.remove(p) else { unreachable!() }; match t.1 { 1 => b.reverse(), 2 => { let d = b.clone(); b.extend(d) } _ => {} } c.attributes.insert(0, ClassAttribute::BootstrapMethods(b)); }
                let declared = c.attributes.iter().map(|a| if let ClassAttribute::BootstrapMethods(b) = a { b.len() } else { 0 }).sum::<usize>();
                let mut b = write(&c)?; ctx.steps(1);
                let (p, n) = parse::parse_full(&b).map_err(|e| format!("written file is malformed: {e}; {}", clip(&hex(&b))))?;
                same("written file", v, &p)?;
                if n > bs.len() + declared { return Err(format!("{n} bootstrap methods written for {} in use and {declared} declared", bs.len())) }
                for round in 0..4 {
                    let r = read(&b)?; same(&format!("read back, round {round}"), v, &abs::class(&r)?)?;
                    b = write(&r)?; ctx.steps(2);
                    let (p, m) = parse::parse_full(&b)?; same("rewritten file", v, &p)?;
                    if m > n { return Err(format!("the bootstrap table grew from {n} to {m} in round {round}")) }
                }
                Ok(fnv(&b))
            });
        }
    });
    // many methods, many uses, deep chains
    let mut big: Vec<(String, V)> = vec![];
    let d = |n: String, h: i64, a: Vec<V>| gen::dynv(&n, "I", gen::bsm_handle(h as u32 % 3), a);
    let sizes: Vec<usize> = (2..ctx.pick(24, 48)).chain((120..ctx.pick(520, 1030)).step_by(if ctx.thorough() { 1 } else { 3 })).chain([254, 255, 256, 257, 258, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000]).collect();
    for n in sizes {
        let push = |x: V| N("push", vec![x]);
        big.push((format!("{n} bootstrap methods"), body((0..n).map(|i| push(d("x".into(), i as i64, vec![gen::kint(i as i64)]))).collect())));
        big.push((format!("{n} uses of one bootstrap method"), body((0..n).map(|i| push(d(format!("x{i}"), 0, vec![]))).collect())));
        big.push((format!("the same dynamic constant {n} times"), body((0..n).map(|_| push(d("x".into(), 0, vec![gen::kint(1)]))).collect())));
        big.push((format!("{n} dynamic arguments"), body(vec![push(d("y".into(), 1, (0..n).map(|i| d("x".into(), 0, vec![gen::kint(i as i64)])).collect()))])));
        big.push((format!("{n} call sites and constants, alternating"), body((0..n).map(|i| uses(&d("x".into(), (i / 7) as i64, vec![gen::kint((i % 5) as i64)]))[i % 2].clone()).collect())));
    }
    let mut chain = gen::dynv("z", "I", gen::bsm_handle(0), vec![]);
    for k in 1..249u32 { chain = gen::dynv("z", "I", gen::bsm_handle(k % 3), vec![chain]); if k < 8 || k % 16 < 2 || k > 240 || ctx.thorough() { big.push((format!("chain of {k}"), body(vec![N("push", vec![chain.clone()])]))) } }
    ctx.note("large tables and deep chains", big.len());
    par(big.len(), |k| { let (name, v) = &big[k]; ctx.case(|| name.clone(), || {
        let c = conc::class_with(v, Table::Absent);
        let b = write(&c)?; let (p, n) = parse::parse_full(&b).map_err(|e| format!("written file is malformed: {e}"))?; same("written file", v, &p)?;
        let r = read(&b)?; same("read back", v, &abs::class(&r)?)?;
        let b2 = write(&r)?; let (p, m) = parse::parse_full(&b2)?; same("rewritten file", v, &p)?; ctx.steps(3);
        if m > n { return Err(format!("the bootstrap table grew from {n} to {m}")) }
        Ok(fnv(&b))
    }) });
    // files with dangling references: cut the table short, at every length, or drop the attribute
    let small: Vec<&V> = cl.iter().collect();
    par(small.len(), |k| {
        let v = small[k];
        let mut bs = vec![]; conc::collect_bsms(v, &mut bs);
        for perm in 0..3 { for first in [false, true] {
            let f = enc::encode(v, &enc::Ch { bsm_first: first, perm, ..Default::default() });
            ctx.case(|| format!("file, order {perm}, table first {first}: {v:?}"), || { let r = read(&f)?; same("file", v, &abs::class(&r)?)?; ctx.steps(1); Ok(fnv(&f)) });
            for keep in 0..=bs.len() {
                ctx.case(|| format!("table cut to {keep} of {} (order {perm}, first {first}) in {v:?}", bs.len()), || {
                    let Some((g, used)) = cut_table(&f, if keep == bs.len() { None } else { Some(keep) })? else { return Ok(0) };
                    // entries still in the table may refer to removed ones; everything in use is needed
                    let r = guard(|| coffer::clazz::Class::read_from(&mut &g[..]))?; ctx.steps(1);
                    if r.is_ok() && used { return Err(format!("dangling bootstrap reference accepted; {}", clip(&hex(&g)))) }
                    Ok(fnv(&g))
                });
            }
        } }
    });
    // every use of an entry whose bootstrap index is out of range
    let tables = [0usize, 1, 2, 255, 256, 257];
    par(tables.len(), |k| { let n = tables[k]; for bad in (0..n + 3).chain([127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65533, 65534, 65535]) { for op in [18u8, 19, 20, 186, 178, 184, 185, 187, 189, 192, 197] { for arg in [false, true] {
        ctx.case(|| format!("opcode {op} with bootstrap index {bad} of {n}, as argument {arg}"), || {
            let mut p = crate::raw::RawPool::new();
            let m = p.member(10, "A", "m", "()V"); let h = p.mh(6, m); let nt = p.nt("d", if op == 20 && !arg { "J" } else if op == 186 && !arg { "()V" } else { "LA;" });
            let dy = p.two(if op == 186 && !arg { 18 } else { 17 }, bad as u16, nt);
            let mut b = crate::raw::u2(n as u16 + arg as u16).to_vec(); for _ in 0..n { b.extend(crate::raw::u2(h)); b.extend([0, 0]) }
            let top = if arg { b.extend(crate::raw::u2(h)); b.extend([0, 1]); b.extend(crate::raw::u2(dy)); let t = p.nt("t", if op == 20 { "J" } else if op == 186 { "()V" } else { "LA;" }); p.two(if op == 186 { 18 } else { 17 }, n as u16, t) } else { dy };
            let mut c = vec![op]; if op == 18 { c.push(top as u8) } else { c.extend(crate::raw::u2(top)) } if op == 185 { c.extend([1, 0]) } if op == 186 { c.extend([0, 0]) } if op == 197 { c.push(1) } c.push(177);
            let at: Vec<(&str, Vec<u8>)> = if n == 0 && !arg { vec![] } else { vec![("BootstrapMethods", b)] };
            let f = crate::raw::with_code(p, &c, &[], &[], &at);
            ctx.steps(1); ctx.state(fnv(&f));
            match (guard(|| read(&f))?, bad < n) { (Ok(c), true) => { same("read as", &parse::parse_class(&f).map_err(|e| format!("MODEL: {e}"))?, &abs::class(&c)?)?; ctx.tag("bootstrap index in range"); Ok(0) } (Err(_), false) => { ctx.tag("bootstrap index out of range: rejected"); Ok(1) } (Ok(_), false) => Err("accepted".into()), (Err(e), true) => Err(format!("valid file rejected: {e}")) }
        })
    } } } });
    // every graph of arguments between up to four bootstrap methods: those that can be resolved are, with their own arguments
    for n in 1..=4usize { ctx.tag_n("graphs of arguments", 1 << (n * n)); par(1 << (n * n), |g| {
        let edge = |i: usize, j: usize| g >> (i * n + j) & 1 == 1;
        ctx.case(|| format!("{n} bootstrap methods, arguments {g:#b}"), || {
            let mut p = crate::raw::RawPool::new();
            let m = p.member(10, "A", "m", "()V"); let h = p.mh(6, m); let nt = p.nt("d", "LA;");
            let dy: Vec<u16> = (0..n).map(|i| p.two(17, i as u16, nt)).collect(); let own: Vec<u16> = (0..n).map(|i| p.add(3, &crate::raw::u4(70 + i as u32))).collect();
            let mut b = crate::raw::u2(n as u16).to_vec();
            for i in 0..n { b.extend(crate::raw::u2(h)); let mut a = vec![own[i]]; a.extend((0..n).filter(|j| edge(i, *j)).map(|j| dy[j])); b.extend(crate::raw::u2(a.len() as u16)); for x in a { b.extend(crate::raw::u2(x)) } }
            let mut c = vec![]; for d in [dy[0], dy[n - 1], dy[n / 2]] { c.push(19); c.extend(crate::raw::u2(d)) } c.push(177);
            let f = crate::raw::with_code(p, &c, &[], &[], &[("BootstrapMethods", b)]);
            ctx.steps(1); ctx.state(fnv(&f));
            // can all of them be put in an order?
            let mut done = vec![false; n]; for _ in 0..n { for i in 0..n { if (0..n).all(|j| !edge(i, j) || done[j]) { done[i] = true } } }
            match (guard(|| read(&f))?, done.iter().all(|d| *d)) {
                (Ok(c), true) => { same("read as", &parse::parse_class(&f).map_err(|e| format!("MODEL: {e}"))?, &abs::class(&c)?)?; ctx.tag("resolved"); Ok(fnv(&f)) }
                (Err(e), true) => Err(format!("valid file rejected: {e}")),
                (Err(_), false) => { ctx.tag("cyclic: rejected"); Ok(1) }
                (Ok(c), false) => { std::mem::forget(c); Err("a dynamic value that is its own argument was accepted".into()) }
            }
        })
    }) }
    ctx.finish("model_checking")
}
/// Rewrites the file's bootstrap table to its first `keep` entries (None: no attribute at all). Whether an instruction of the file, or an argument of a kept entry, still needs a removed one.
fn cut_table(f: &[u8], keep: Option<usize>) -> Result<Option<(Vec<u8>, bool)>, String> {
    let mut r = Rd::new(f); r.take(8)?;
    let p = Pool::parse(&mut r)?;
    let pool_end = r.p;
    // walk to class attributes
    r.take(6)?; let n = r.u2()?; r.take(2 * n as usize)?;
    for _ in 0..2 { for _ in 0..r.u2()? { r.take(6)?; for _ in 0..r.u2()? { r.take(2)?; let l = r.u4()?; r.take(l as usize)?; } } }
    let at = r.p; let count = r.u2()?;
    let mut out = f[..at].to_vec(); let mut kept = vec![]; let mut ncount = 0u16; let mut total = 0;
    let _ = pool_end;
    for _ in 0..count {
        let name = r.u2()?; let l = r.u4()? as usize; let d = r.take(l)?;
        let mut d = d.to_vec();
        if p.utf8(name)? == "BootstrapMethods".encode_utf16().collect::<Vec<_>>() {
            let mut q = Rd::new(&d); total = q.u2()? as usize;
            let Some(k) = keep else { continue };
            if k >= total { return Ok(None) }
            for _ in 0..k { q.u2()?; for _ in 0..q.u2()? { q.u2()?; } }
            let e = q.p; d.truncate(e); d[..2].copy_from_slice(&(k as u16).to_be_bytes());
        }
        ncount += 1; kept.extend(name.to_be_bytes()); kept.extend((d.len() as u32).to_be_bytes()); kept.extend(d);
    }
    out.extend(ncount.to_be_bytes()); out.extend(kept);
    if total == 0 { return Ok(None) }
    // in use: the independent parser resolves every dynamic entry; it fails exactly when something dangles.
    // The encoder puts no unused dynamic entries into the pool, so every entry is needed by an instruction or an argument.
    // An argument entry may be needed only by a removed table entry, though: compute reachability from the code.
    Ok(Some((out.clone(), needs_removed(&out, &p, f, keep.unwrap_or(0))?)))
}
/// Whether, starting from instructions, a bootstrap index >= keep is reached.
fn needs_removed(_g: &[u8], p: &Pool, f: &[u8], keep: usize) -> Result<bool, String> {
    let mut r = Rd::new(f); r.take(8)?; Pool::parse(&mut r)?;
    r.take(6)?; let n = r.u2()?; r.take(2 * n as usize)?;
    if r.u2()? != 0 { return Err("fields not expected".into()) }
    let mut roots: Vec<u16> = vec![];
    for _ in 0..r.u2()? {
        r.take(6)?;
        for _ in 0..r.u2()? { r.take(2)?; let l = r.u4()? as usize; let d = r.take(l)?; let mut q = Rd::new(d); q.take(4)?; let cl = q.u4()? as usize; let c = q.take(cl)?;
            let mut pc = 0;
            while pc < c.len() { let (o, len) = match c[pc] { 18 => (c[pc + 1] as u16, 2), 19 | 20 | 178..=184 | 187 | 189 | 192 => (u16::from_be_bytes([c[pc + 1], c[pc + 2]]), 3), 185 | 186 => (u16::from_be_bytes([c[pc + 1], c[pc + 2]]), 5), 197 => (u16::from_be_bytes([c[pc + 1], c[pc + 2]]), 4), 177 => (0, 1), x => return Err(format!("opcode {x} not expected")) }; roots.push(o); pc += len }
        }
    }
    // the table of the whole file
    let mut table: Vec<Vec<u16>> = vec![];
    for _ in 0..r.u2()? { let name = r.u2()?; let l = r.u4()? as usize; let d = r.take(l)?; if p.utf8(name)? == "BootstrapMethods".encode_utf16().collect::<Vec<_>>() { let mut q = Rd::new(d); for _ in 0..q.u2()? { q.u2()?; let mut a = vec![]; for _ in 0..q.u2()? { a.push(q.u2()?) } table.push(a) } } }
    let mut seen = std::collections::HashSet::new();
    let mut todo = roots;
    while let Some(i) = todo.pop() {
        if let Ok(Cp::Dyn(b, _) | Cp::Indy(b, _)) = p.get(i) { if *b as usize >= keep { return Ok(true) } if seen.insert(*b) { todo.extend(&table[*b as usize]) } }
    }
    Ok(false)
}
