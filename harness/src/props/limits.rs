//! C17: every count and length at its limit and beyond it.
use super::c01::{read, same, write};
use crate::engine::*;
use crate::parse::{self, Rd};
use crate::v::*;
use crate::{abs, conc, gen};
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;

/// A counted or sized field of the format: how to build a class with `n` of it.
struct Item { name: String, max: usize, make: Box<dyn Fn(usize) -> V + Sync + Send> }
fn rep(n: usize, v: V) -> V { L(vec![v; n]) }
fn text(n: usize, unit: &[u16], bytes: usize) -> V {
    // a string of exactly n bytes in modified UTF-8
    let mut o = vec![]; for _ in 0..n / bytes { o.extend_from_slice(unit) } for _ in 0..n % bytes { o.push('a' as u16) } S(o)
}
fn items() -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let mut add = |name: &str, max: usize, make: Box<dyn Fn(usize) -> V + Sync + Send>| v.push(Item { name: name.into(), max, make });
    const M: usize = 65535;
    use gen::*;
    // strings, by every kind of character and in every role
    for (nm, unit, bytes) in [("ascii", vec![0x61u16], 1usize), ("NUL", vec![0], 2), ("two byte", vec![0xE9], 2), ("three byte", vec![0x65E5], 3), ("supplementary", vec![0xD800, 0xDC00], 6), ("lone surrogate", vec![0xDC00], 3)] {
        let u1 = unit.clone(); add(&format!("class name of {nm} characters"), M, Box::new(move |n| classv(52, 1, text(n, &u1, bytes), s("O"), vec![], vec![], vec![], vec![])));
        let u1 = unit.clone(); add(&format!("string constant of {nm} characters"), M, Box::new(move |n| wrap_field(vec![N("ConstantValue", vec![N("string", vec![text(n, &u1, bytes)])])])));
    }
    let st = |n: usize| text(n, &[0x61], 1);
    add("super name", M, Box::new(move |n| classv(52, 1, s("A"), st(n), vec![], vec![], vec![], vec![])));
    add("interface name", M, Box::new(move |n| classv(52, 1, s("A"), s("O"), vec![st(n)], vec![], vec![], vec![])));
    add("field name", M, Box::new(move |n| classv(52, 1, s("A"), s("O"), vec![], vec![field(1, st(n), s("I"), vec![])], vec![], vec![])));
    add("method name", M, Box::new(move |n| classv(52, 1, s("A"), s("O"), vec![], vec![], vec![field(1, st(n), s("()V"), vec![])], vec![])));
    let refd = move |n: usize| { let mut d = vec!['L' as u16]; d.extend(st(n - 2).st()); d.push(';' as u16); S(d) };
    add("field descriptor", M, Box::new(move |n| classv(52, 1, s("A"), s("O"), vec![], vec![field(1, s("f"), refd(n), vec![])], vec![], vec![])));
    add("method descriptor of many parameters", M, Box::new(move |n| { let mut d = vec!['(' as u16]; d.extend(vec!['I' as u16; n - 3]); d.extend([')' as u16, 'V' as u16]); classv(52, 1, s("A"), s("O"), vec![], vec![], vec![field(1, s("m"), S(d), vec![])], vec![]) }));
    add("signature text", M, Box::new(move |n| { let mut d = vec!['L' as u16]; d.extend(st(n - 2).st()); d.push(';' as u16); wrap_field(vec![N("Signature", vec![S(d)])]) }));
    add("class signature text", M, Box::new(move |n| { let mut d = vec!['L' as u16]; d.extend(st(n - 2).st()); d.push(';' as u16); wrap_class(vec![N("Signature", vec![S(d)])]) }));
    add("method signature text", M, Box::new(move |n| { let mut d: Vec<u16> = "(L".encode_utf16().collect(); d.extend(st(n - 5).st()); d.extend(";)V".encode_utf16()); wrap_method(vec![N("Signature", vec![S(d)])]) }));
    add("source file name", M, Box::new(move |n| wrap_class(vec![N("SourceFile", vec![st(n)])])));
    add("unknown attribute name", M, Box::new(move |n| wrap_class(vec![N("raw", vec![st(n), B(vec![])])])));
    add("annotation string", M, Box::new(move |n| wrap_method(vec![N("AnnotationDefault", vec![ev('s', vec![st(n)])])])));
    add("annotation element name", M, Box::new(move |n| wrap_class(vec![N("RVA", vec![L(vec![N("ann", vec![s("LA;"), L(vec![N("pair", vec![st(n), ev('Z', vec![I(1)])])])])])])])));
    add("annotation type", M, Box::new(move |n| wrap_class(vec![N("RVA", vec![L(vec![N("ann", vec![refd(n), L(vec![])])])])])));
    add("enum constant name", M, Box::new(move |n| wrap_method(vec![N("AnnotationDefault", vec![ev('e', vec![s("LE;"), st(n)])])])));
    add("class element", M, Box::new(move |n| wrap_method(vec![N("AnnotationDefault", vec![ev('c', vec![refd(n)])])])));
    add("member owner", M, Box::new(move |n| wrap_code(code1(N("ref", vec![I(178), N("field", vec![st(n), s("f"), s("I")])])))));
    add("member name", M, Box::new(move |n| wrap_code(code1(N("ref", vec![I(184), N("method", vec![s("A"), st(n), s("()V")])])))));
    add("class constant", M, Box::new(move |n| wrap_code(code1(N("push", vec![N("cls", vec![st(n)])])))));
    add("method type constant", M, Box::new(move |n| { let mut d = vec!['(' as u16]; d.extend(vec!['J' as u16; n - 3]); d.extend([')' as u16, 'V' as u16]); wrap_code(code1(N("push", vec![N("mtype", vec![S(d)])]))) }));
    add("dynamic constant name", M, Box::new(move |n| wrap_code(code1(N("push", vec![N("dyn", vec![st(n), s("I"), N("bsm", vec![bsm_handle(0), L(vec![])])])])))));
    add("call site name", M, Box::new(move |n| wrap_code(code1(N("indy", vec![N("dyn", vec![st(n), s("()V"), N("bsm", vec![bsm_handle(0), L(vec![])])])])))));
    add("module name", M, Box::new(move |n| wrap_class(vec![N("Module", vec![st(n), I(0), none(), L(vec![]), L(vec![]), L(vec![]), L(vec![]), L(vec![])])])));
    add("package name", M, Box::new(move |n| wrap_class(vec![N("ModulePackages", vec![L(vec![st(n)])])])));
    add("exception type of a handler", M, Box::new(move |n| wrap_code(codev(vec![opn(0), ret()], vec![N("h", vec![I(0), I(1), I(1), st(n)])], vec![], vec![], vec![], vec![]))));
    add("local variable name", M, Box::new(move |n| wrap_code(codev(vec![opn(0), ret()], vec![], vec![], vec![L(vec![I(0), I(1), st(n), s("I"), I(0)])], vec![], vec![]))));
    add("parameter name", M, Box::new(move |n| wrap_method(vec![N("MethodParameters", vec![L(vec![N("mp", vec![st(n), I(0)])])])])));
    // lists of the class
    add("interfaces", M, Box::new(|n| N("class", vec![I(0), I(52), I(1), s("A"), s("O"), rep(n, s("I")), L(vec![]), L(vec![]), L(vec![])])));
    add("fields", M, Box::new(|n| N("class", vec![I(0), I(52), I(1), s("A"), s("O"), L(vec![]), rep(n, field(1, s("f"), s("I"), vec![])), L(vec![]), L(vec![])])));
    add("methods", M, Box::new(|n| N("class", vec![I(0), I(52), I(1), s("A"), s("O"), L(vec![]), L(vec![]), rep(n, field(1, s("m"), s("()V"), vec![])), L(vec![])])));
    add("class attributes", M, Box::new(|n| wrap_class(vec![N("Synthetic", vec![]); n])));
    add("class attributes with a bootstrap table", M - 1, Box::new(|n| { let N(k, mut c) = wrap_code(code1(N("push", vec![dyns()[0].clone()]))) else { unreachable!() }; c[8] = rep(n, N("Deprecated", vec![])); N(k, c) }));
    add("unknown class attributes", M, Box::new(|n| wrap_class(vec![N("raw", vec![s("X"), B(vec![1])]); n])));
    add("field attributes", M, Box::new(|n| wrap_field(vec![N("Synthetic", vec![]); n])));
    add("method attributes", M, Box::new(|n| wrap_method(vec![N("Deprecated", vec![]); n])));
    let raws = |n: usize| vec![N("raw", vec![s("X"), B(vec![])]); n];
    add("code attributes", M, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![], vec![], vec![], raws(n)))));
    add("code attributes and line numbers", M - 1, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![L(vec![I(0), I(1)])], vec![], vec![], raws(n)))));
    add("code attributes, line numbers and variables", M - 3, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![L(vec![I(0), I(1)])], vec![L(vec![I(0), I(1), s("x"), s("I"), I(0)])], vec![L(vec![I(0), I(1), s("x"), s("TT;"), I(0)])], raws(n)))));
    // tables of attributes
    add("exceptions", M, Box::new(|n| wrap_method(vec![N("Exceptions", vec![rep(n, s("E"))])])));
    add("nest members", M, Box::new(|n| wrap_class(vec![N("NestMembers", vec![rep(n, s("E"))])])));
    add("module packages", M, Box::new(|n| wrap_class(vec![N("ModulePackages", vec![rep(n, s("p"))])])));
    add("inner classes", M, Box::new(|n| wrap_class(vec![N("InnerClasses", vec![rep(n, N("ic", vec![s("A$B"), none(), s("B"), I(1)]))])])));
    fn md(at: usize, x: V) -> V { let mut l = vec![s("m"), I(0), none(), L(vec![]), L(vec![]), L(vec![]), L(vec![]), L(vec![])]; l[at] = x; gen::wrap_class(vec![N("Module", l)]) }
    add("requires", M, Box::new(|n| md(3, rep(n, N("req", vec![s("r"), I(0), none()])))));
    add("exports", M, Box::new(|n| md(4, rep(n, N("exp", vec![s("p"), I(0), L(vec![])])))));
    add("opens", M, Box::new(|n| md(5, rep(n, N("open", vec![s("p"), I(0), L(vec![])])))));
    add("uses", M, Box::new(|n| md(6, rep(n, s("U")))));
    add("provides", M, Box::new(|n| md(7, rep(n, N("prov", vec![s("P"), L(vec![])])))));
    add("modules exported to", M, Box::new(|n| md(4, L(vec![N("exp", vec![s("p"), I(0), rep(n, s("x"))])]))));
    add("modules opened to", M, Box::new(|n| md(5, L(vec![N("open", vec![s("p"), I(0), rep(n, s("x"))])]))));
    add("providers of a service", M, Box::new(|n| md(7, L(vec![N("prov", vec![s("P"), rep(n, s("Q"))])]))));
    add("method parameters", 255, Box::new(|n| wrap_method(vec![N("MethodParameters", vec![rep(n, N("mp", vec![s("p"), I(0)]))])])));
    // annotations
    let empty = || N("ann", vec![s("LA;"), L(vec![])]);
    for k in ["RVA", "RIA"] {
        add(&format!("{k} of a class"), M, Box::new(move |n| wrap_class(vec![N(k, vec![rep(n, empty())])])));
        add(&format!("{k} of a field"), M, Box::new(move |n| wrap_field(vec![N(k, vec![rep(n, empty())])])));
        add(&format!("{k} of a method"), M, Box::new(move |n| wrap_method(vec![N(k, vec![rep(n, empty())])])));
    }
    for k in ["RVPA", "RIPA"] {
        add(&format!("{k} parameters"), 255, Box::new(move |n| wrap_method(vec![N(k, vec![rep(n, L(vec![]))])])));
        add(&format!("{k} of one parameter"), M, Box::new(move |n| wrap_method(vec![N(k, vec![L(vec![rep(n, empty())])])])));
    }
    let ta = |t: Vec<V>| N("tann", vec![N("tgt", t), L(vec![]), s("LT;"), L(vec![])]);
    for k in ["RVTA", "RITA"] {
        add(&format!("{k} of a class"), M, Box::new(move |n| wrap_class(vec![N(k, vec![rep(n, ta(vec![I(0), I(0)]))])])));
        add(&format!("{k} of a field"), M, Box::new(move |n| wrap_field(vec![N(k, vec![rep(n, ta(vec![I(0x13)]))])])));
        add(&format!("{k} of a method"), M, Box::new(move |n| wrap_method(vec![N(k, vec![rep(n, ta(vec![I(0x14)]))])])));
        add(&format!("{k} of code"), M, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![], vec![], vec![], vec![N(k, vec![rep(n, ta(vec![I(0x44), I(0)]))])]))));
    }
    let tp = |t: Vec<V>, n: usize| N("tann", vec![N("tgt", t), rep(n, L(vec![I(3), I(1)])), s("LT;"), L(vec![])]);
    add("type path in a class", 255, Box::new(move |n| wrap_class(vec![N("RVTA", vec![L(vec![tp(vec![I(0), I(0)], n)])])])));
    add("type path in a field", 255, Box::new(move |n| wrap_field(vec![N("RVTA", vec![L(vec![tp(vec![I(0x13)], n)])])])));
    add("type path in a method", 255, Box::new(move |n| wrap_method(vec![N("RVTA", vec![L(vec![tp(vec![I(0x14)], n)])])])));
    add("type path in code", 255, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![tp(vec![I(0x44), I(0)], n)])])]))));
    for t in [0x40, 0x41] { add(&format!("ranges of a {t:#x} target"), M, Box::new(move |n| wrap_code(codev(vec![ret()], vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![ta(vec![I(t), rep(n, L(vec![I(0), I(1), I(2)]))])])])])))); }
    add("annotation array", M, Box::new(|n| wrap_method(vec![N("AnnotationDefault", vec![ev('[', vec![rep(n, ev('Z', vec![I(1)]))])])])));
    add("nested annotation array", M, Box::new(|n| wrap_class(vec![N("RVA", vec![L(vec![ann("LA;", vec![pair("x", ev('[', vec![L(vec![ev('[', vec![rep(n, ev('Z', vec![I(1)]))])])]))])])])])));
    // code
    add("code bytes", M, Box::new(|n| wrap_code(codev({ let mut v = vec![opn(0); n - 1]; v.push(ret()); v }, vec![], vec![], vec![], vec![], vec![]))));
    add("handlers", M, Box::new(|n| wrap_code(N("code", vec![I(2), I(3), L(vec![opn(0), ret()]), rep(n, N("h", vec![I(0), I(1), I(1), none()])), L(vec![]), L(vec![]), L(vec![]), L(vec![])]))));
    add("line numbers", M, Box::new(|n| wrap_code(codev(vec![opn(0), ret()], vec![], vec![L(vec![I(1), I(5)]); n], vec![], vec![], vec![]))));
    add("local variables", M, Box::new(|n| wrap_code(codev(vec![opn(0), opn(0), ret()], vec![], vec![], (0..n).map(|i| L(vec![I(i as i64 / 65536), I(3), s("x"), s("I"), I(i as i64 % 65536)])).collect(), vec![], vec![]))));
    add("local variable types", M, Box::new(|n| wrap_code(codev(vec![opn(0), opn(0), ret()], vec![], vec![], vec![], (0..n).map(|i| L(vec![I(i as i64 / 65536), I(3), s("x"), s("TT;"), I(i as i64 % 65536)])).collect(), vec![]))));
    // bootstrap methods
    add("bootstrap arguments", M, Box::new(|n| wrap_code(code1(N("push", vec![dynv("d", "I", bsm_handle(0), vec![kint(5); n])])))));
    // the constant pool: as many ints as fit besides the other entries of the class (this_class, super_class, Integer names ...)
    v
}
/// Writing `n` must succeed exactly up to the limit, and then keep everything.
fn judge(ctx: &Ctx, v: &V, fits: bool) -> Result<u64, String> {
    let c = conc::class(v);
    ctx.steps(1);
    match write(&c) {
        Err(e) if !fits => { ctx.tag("rejected beyond the limit"); Ok(fnv(e.as_bytes())) }
        Err(e) => Err(format!("fits, but: {e}")),
        Ok(b) if !fits => Err(format!("does not fit, but {} bytes were written: {}", b.len(), clip(&hex(&b)))),
        Ok(b) => {
            let p = parse::parse_class(&b).map_err(|e| format!("written file is malformed: {e}"))?;
            if &p != v { let d = diff(v, &p).unwrap_or_default(); return Err(format!("written file says something else: {}", clip(&d))) }
            let r = read(&b)?; ctx.steps(1);
            if abs::class(&r)? != *v { return Err(format!("read back as something else: {}", clip(&diff(v, &abs::class(&r)?).unwrap_or_default()))) }
            ctx.tag("kept up to the limit");
            Ok(fnv(&b))
        }
    }
}
pub fn c17(ctx: &'static Ctx) -> i32 {
    let its = items();
    ctx.rule("every counted or sized field at limit-1, limit, limit+1, limit+2, limit+3, 2*limit, 2*limit+2 (the sizes a truncated count would turn into 0, 1, ...); below: written, parsed independently, read back; above: an error");
    ctx.assume("32-bit attribute lengths (4 GiB) are out of reach");
    let ns = |m: usize| { let mut v = vec![m - 1, m, m + 1, m + 2, m + 3, 2 * m + 2]; if ctx.thorough() { v.extend([m - 2, m / 2, m / 2 + 1, m + 4, m + 256, 2 * m + 1, 2 * m + 3, 3 * m, 4 * m + 4]) } v };
    let mut work = vec![]; for (i, it) in its.iter().enumerate() { for n in ns(it.max) { work.push((i, n)) } }
    par(work.len(), |k| { let (i, n) = work[k]; let it = &its[i]; ctx.state(hash_of(&(i, n))); ctx.case(|| format!("{} x {n} (limit {})", it.name, it.max), || judge(ctx, &(it.make)(n), n <= it.max)) });
    ctx.tag_n("limits", its.len() as u64);
    // what has no 16-bit limit must not be limited
    let free: Vec<(&str, V)> = vec![
        ("debug extension of 200000 bytes", gen::wrap_class(vec![N("SourceDebugExtension", vec![text(200_000, &[0x61], 1)])])),
        ("unknown attribute of 200000 bytes", gen::wrap_class(vec![N("raw", vec![s("X"), B(vec![7; 200_000])])])),
        ("unknown attribute of 65536 bytes", gen::wrap_field(vec![N("raw", vec![s("X"), B(vec![7; 65536])])])),
        ("unknown method attribute", gen::wrap_method(vec![N("raw", vec![s("X"), B(vec![7; 65537])])])),
        ("unknown code attribute", gen::wrap_code(gen::codev(vec![gen::ret()], vec![], vec![], vec![], vec![], vec![N("raw", vec![s("X"), B(vec![7; 70000])])]))),
        ("two strings of 65535 bytes", gen::wrap_class(vec![N("SourceFile", vec![text(65535, &[0x61], 1)]), N("raw", vec![text(65535, &[0x62], 1), B(vec![])])])),
    ];
    let mut free: Vec<(String, V)> = free.into_iter().map(|(n, v)| (n.to_string(), v)).collect();
    for n in [65535usize, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1] {
        let raw = || vec![N("raw", vec![s("X"), B((0..n).map(|i| (i % 251) as u8).collect())]), N("raw", vec![s("Y"), B(vec![1])])];
        free.push((format!("unknown class attribute of {n} bytes"), gen::wrap_class(raw()))); free.push((format!("unknown field attribute of {n} bytes"), gen::wrap_field(raw()))); free.push((format!("unknown method attribute of {n} bytes"), gen::wrap_method(raw())));
        free.push((format!("unknown code attribute of {n} bytes"), gen::wrap_code(gen::codev(vec![gen::ret()], vec![], vec![], vec![], vec![], raw()))));
        free.push((format!("debug extension of {n} bytes"), gen::wrap_class(vec![N("SourceDebugExtension", vec![text(n, &[0x65E5], 3)]), N("raw", vec![s("Y"), B(vec![1])])])));
    }
    par(free.len(), |k| { ctx.state(hash_of(&free[k].1)); ctx.case(|| free[k].0.clone(), || judge(ctx, &free[k].1, true)) });
    pool(ctx); tables(ctx); frames(ctx); switches(ctx);
    ctx.finish("model_checking")
}
fn cap(ctx: &Ctx, what: String, c: Class, fits: bool, look: &(dyn Fn(&[u8], &Class) -> Result<(), String> + Sync)) {
    ctx.state(fnv(what.as_bytes()));
    ctx.case(|| what.clone(), || { ctx.steps(1); match write(&c) {
        Err(_) if !fits => { ctx.tag("rejected beyond the limit"); Ok(0) } Err(e) => Err(format!("fits, but: {e}")), Ok(b) if !fits => Err(format!("does not fit, but {} bytes were written", b.len())),
        Ok(b) => { let p = parse::parse_class(&b).map_err(|e| format!("malformed: {e}"))?; let r = read(&b)?; ctx.steps(1); let (a, q) = (abs::class(&c)?, abs::class(&r)?); if a != p { return Err(format!("file: {}", clip(&diff(&a, &p).unwrap_or_default()))) } if a != q { return Err(format!("read back: {}", clip(&diff(&a, &q).unwrap_or_default()))) } look(&b, &r)?; Ok(fnv(&b)) }
    } });
}
/// The constant pool holds 65534 slots; values of one and two slots.
fn pool(ctx: &Ctx) {
    // fixed entries of the class below
    let base = |fs: Vec<V>| gen::classv(52, 1, s("A"), s("O"), vec![], fs, vec![], vec![]);
    let fld = |c: V| gen::field(1, s("f"), s("I"), vec![N("ConstantValue", vec![c])]);
    let one = write(&conc::class(&base(vec![fld(gen::kint(0))]))).expect("one constant");
    let used = { let mut r = Rd::new(&one); r.p = 8; r.u2().unwrap() as usize - 1 }; // slots with one int
    let room = 65534 - used; // further single-slot constants
    for d in [-2i64, -1, 0, 1, 2, 3, 1000, 65536] {
        let n = (room as i64 + d) as usize;
        // field lists hold 65535 entries at most
        if n + 1 <= 65535 { cap(ctx, format!("{n} further ints in a pool with room for {room}"), conc::class(&base((0..=n as i64).map(|i| fld(gen::kint(i))).collect())), d <= 0, &|b, _| { let mut r = Rd::new(b); r.p = 8; let c = r.u2()? as usize; if d == 0 && c != 65535 { return Err(format!("pool count {c}")) } Ok(()) }) }
    }
    for d in [-3i64, -2, -1, 0, 1, 2, 3] {
        // longs take two slots each
        let n = (room as i64 + d) / 2; let slots = 2 * n; if slots - room as i64 != d { continue }
        for k in ["long", "double"] { cap(ctx, format!("{n} {k} constants ({slots} slots) with room for {room}"), conc::class(&base(std::iter::once(fld(gen::kint(0))).chain((0..n).map(|i| fld(N(k, vec![I(i)])))).collect())), d <= 0, &|_, _| Ok(())) }
        for k in ["long", "double"] { let n = n - 1; cap(ctx, format!("{n} {k} constants and two strings"), conc::class(&base(std::iter::once(fld(gen::kint(0))).chain((0..n).map(|i| fld(N(k, vec![I(i)])))).chain([fld(N("string", vec![s("f")])), fld(N("string", vec![s("A")]))]).collect())), d <= 0, &|_, _| Ok(())) }
    }
    // names: each field with its own name; method refs; strings
    let n0 = write(&conc::class(&gen::classv(52, 1, s("A"), s("O"), vec![], vec![gen::field(1, s("n0"), s("I"), vec![])], vec![], vec![]))).expect("one field");
    let room = 65534 - { let mut r = Rd::new(&n0); r.p = 8; r.u2().unwrap() as i64 - 1 };
    for d in [-1i64, 0, 1, 2] { cap(ctx, format!("{} distinct field names, room {}", room + d + 1, room + 1), conc::class(&gen::classv(52, 1, s("A"), s("O"), vec![], (0..=room + d).map(|i| gen::field(1, s(&format!("n{i}")), s("I"), vec![])).collect(), vec![], vec![])), d <= 0, &|_, _| Ok(())) }
    ctx.tag("constant pool size");
}
fn tables(ctx: &Ctx) {
    // bootstrap methods: 256 ints make 65536 distinct pairs
    for (n, fits) in [(65534usize, true), (65535, true), (65536, false), (65537, false), (65600, false)] {
        let mk = |i: usize| conc::bsm(&N("bsm", vec![gen::bsm_handle(0), L(vec![gen::kint((i % 257) as i64), gen::kint((i / 257) as i64)])]));
        let mut c = conc::class(&gen::wrap_class(vec![])); c.attributes.push(ClassAttribute::BootstrapMethods((0..n).map(mk).collect()));
        cap(ctx, format!("{n} bootstrap methods listed"), c, fits, &|_, r| match r.attributes.iter().find_map(|a| if let ClassAttribute::BootstrapMethods(b) = a { Some(b) } else { None }) { Some(b) if b.len() == n && b.iter().enumerate().all(|(i, x)| *x == mk(i)) => Ok(()), x => Err(format!("table read back with {:?} entries", x.map(|b| b.len()))) });
    }
    // the same table, collected from call sites instead of listed; spread over methods because code is limited too
    for (n, fits) in [(65535usize, true), (65536, false), (65537, false)] {
        let per = 8000;
        let ms: Vec<V> = (0..n.div_ceil(per)).map(|m| gen::field(9, s("m"), s("()V"), vec![gen::codev((m * per..n.min((m + 1) * per)).map(|i| N("indy", vec![gen::dynv("i", "()V", gen::bsm_handle(0), vec![gen::kint((i % 257) as i64), gen::kint((i / 257) as i64)])])).chain([gen::ret()]).collect(), vec![], vec![], vec![], vec![], vec![])])).collect();
        // every call site also needs a pool entry of its own, so the pool overflows first
        let _ = fits;
        cap(ctx, format!("{n} bootstrap methods in use"), conc::class(&gen::classv(52, 1, s("A"), s("O"), vec![], vec![], ms, vec![])), false, &|_, _| Ok(()));
    }
    // annotation elements have distinct names, so their count is limited by the pool
    for n in [60000usize, 65535, 65536, 65537, 131072] {
        let c = { let mut c = conc::class(&gen::wrap_class(vec![])); c.attributes.push(ClassAttribute::RuntimeVisibleAnnotations(vec![Annotation { annotation_type: Type::Int, element_values: (0..n).map(|i| (conc::w(&format!("e{i}").encode_utf16().collect::<Vec<_>>()), AnnotationValue::Boolean(true))).collect() }])); c };
        cap(ctx, format!("{n} annotation elements"), c, n == 60000, &|_, _| Ok(()));
    }
}
fn frames(ctx: &Ctx) {
    use VerificationType as T;
    for n in [65534usize, 65535, 65536, 65537, 131072] { for which in 0..2 {
        let v = vec![T::Int; n];
        let f = if which == 0 { RawFrame::Full(5, v, vec![T::Top]) } else { RawFrame::Full(5, vec![T::Top], v) };
        ctx.state(hash_of(&(n, which)));
        ctx.case(|| format!("full frame with {n} {}", ["locals", "stack entries"][which]), || {
            let mut b = vec![]; let mut cp = abs::RecCp::default();
            match f.write_to(&mut cp, &mut b) {
                Err(_) if n > 65535 => { ctx.tag("rejected beyond the limit"); Ok(0) } Err(e) => Err(e.to_string()), Ok(()) if n > 65535 => Err("written".into()),
                Ok(()) => { let mut r = &b[..]; let g: RawFrame = ConstantPoolReadWrite::read_from(&mut MapCp::new(), &mut r).map_err(|e| e.to_string())?; if g != f || !r.is_empty() { return Err("read back differently".into()) } if b.len() != 1 + 2 + 4 + n + 1 { return Err(format!("{} bytes", b.len())) } Ok(fnv(&b)) }
            }
        });
    } }
}
fn switches(ctx: &Ctx) {
    // keys of a tableswitch must stay within 32 bits
    for n in 0usize..4 { for low in [i32::MIN, i32::MIN + 1, -2, -1, 0, i32::MAX - 2, i32::MAX - 1, i32::MAX] {
        let fits = n > 0 && low as i64 + n as i64 - 1 <= i32::MAX as i64;
        let v = gen::wrap_code(gen::codev(vec![N("tsw", vec![I(1), I(low as i64), L(vec![I(1); n])]), gen::ret()], vec![], vec![], vec![], vec![], vec![]));
        ctx.state(hash_of(&v));
        ctx.case(|| format!("tableswitch with {n} arms from {low}"), || judge(ctx, &v, fits));
    } }
    // switches whose size exceeds the method
    for (n, fits) in [(16000usize, true), (16379, true), (16380, false), (16384, false), (70000, false)] {
        let v = gen::wrap_code(gen::codev(vec![N("tsw", vec![I(1), I(0), L(vec![I(1); n])]), gen::ret()], vec![], vec![], vec![], vec![], vec![]));
        ctx.case(|| format!("tableswitch with {n} arms"), || judge(ctx, &v, fits));
    }
    for (n, fits) in [(8000usize, true), (8190, true), (8191, false), (8192, false), (70000, false)] {
        let v = gen::wrap_code(gen::codev(vec![N("lsw", vec![I(1), L((0..n as i64).map(|i| L(vec![I(i), I(1)])).collect())]), gen::ret()], vec![], vec![], vec![], vec![], vec![]));
        ctx.case(|| format!("lookupswitch with {n} arms"), || judge(ctx, &v, fits));
    }
    let _ = same;
}
