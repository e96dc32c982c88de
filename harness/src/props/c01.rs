//! C01 write->read, C02 written bytes vs independent parser, C03 independent encoder vs reader.
use crate::conc::Table;
use crate::engine::*;
use crate::v::*;
use crate::{abs, conc, enc, fam, gen, parse};
use coffer::clazz::Class;
use coffer::ReadWrite;

/// All classes of the bounded grammar: skeletons, every attribute alone, every ordered pair (thorough: triple of distinct kinds) per location.
pub fn corpus(ctx: &Ctx) -> Vec<V> {
    let mut v = gen::skeletons();
    let locs: [(Vec<V>, fn(Vec<V>) -> V); 3] = [(gen::class_attrs(), gen::wrap_class), (gen::field_attrs(), gen::wrap_field), (gen::method_attrs(), gen::wrap_method)];
    for (at, wrap) in &locs {
        for a in at { v.push(wrap(vec![a.clone()])) }
        for a in at { for b in at { if a.name() == "code" && b.name() == "code" { continue } v.push(wrap(vec![a.clone(), b.clone()])) } }
        if ctx.thorough() {
            // one representative per kind, all ordered triples
            let mut reps: Vec<V> = vec![];
            for a in at.iter().rev() { if !reps.iter().any(|r| r.name() == a.name()) { reps.push(a.clone()) } }
            for a in &reps { for b in &reps { for c in &reps { if [a, b, c].iter().filter(|x| x.name() == "code").count() > 1 { continue } v.push(wrap(vec![a.clone(), b.clone(), c.clone()])) } } }
        }
    }
    for i in gen::simple_insns() { v.push(gen::wrap_code(gen::code1(i))) }
    let leafs = gen::leaf_elements();
    for e in leafs { v.push(gen::wrap_method(vec![N("AnnotationDefault", vec![e])])) }
    v.push(gen::everything());
    v
}
/// The families of `fam`, one after the other.
pub fn families(ctx: &Ctx, large: bool) -> Vec<(&'static str, Vec<V>)> {
    if large { return vec![("long lists", fam::sizes(true)), ("references to very many positions", fam::spread(true)), ("long strings and attributes", fam::long_strings(true)), ("large constant pools", fam::padded(true)), ("long bodies", fam::moved_codes(true))] }
    let mut v = vec![("well-known words in every place", fam::names()), ("texts with each character at an edge, in every place", fam::chars()), ("lists of two look-alikes", fam::words(2)), ("lists of one", fam::words(1)), ("list sizes", fam::sizes(false)), ("references to many positions", fam::spread(false)), ("string lengths", fam::long_strings(false)), ("constant pool sizes", fam::padded(false)), ("moved bodies", fam::moved_codes(false)), ("nesting", fam::deep()), ("flags and versions", fam::flags()), ("attributes in two places", fam::across()), ("lists of three look-alikes", fam::words(3))];
    if ctx.thorough() { v.push(("lists of four look-alikes", fam::words(4))) }
    v
}
/// All ordered pairs of non-branching instructions, by number.
pub struct Pairs(Vec<V>);
impl Pairs {
    pub fn new(ctx: &Ctx) -> Self { let mut v = gen::simple_insns(); if !ctx.thorough() { let mut n: std::collections::HashMap<String, usize> = Default::default(); v.retain(|i| { let k = format!("{}{}", i.name(), if let Some(N(x, _)) = i.l().first() { x } else { "" }); let c = n.entry(k).or_default(); *c += 1; *c <= 24 || i.name() == "op" }) } Pairs(v) }
    pub fn len(&self) -> usize { self.0.len() * self.0.len() }
    pub fn get(&self, k: usize) -> V { gen::wrap_code(gen::codev(vec![self.0[k % self.0.len()].clone(), self.0[k / self.0.len()].clone(), gen::ret()], vec![], vec![], vec![], vec![], vec![])) }
}
/// Every class, to `f`.
pub fn each(ctx: &Ctx, f: &(dyn Fn(&V, bool) + Sync)) {
    let c = corpus(ctx);
    ctx.tag_n("classes of the grammar", c.len() as u64);
    par(c.len(), |k| { ctx.state(hash_of(&c[k])); f(&c[k], false) });
    drop(c);
    for large in [false, true] { for (nm, c) in families(ctx, large) { ctx.tag_n(nm, c.len() as u64); par(c.len(), |k| { ctx.state(hash_of(&c[k])); f(&c[k], large) }) } }
    let p = Pairs::new(ctx);
    ctx.tag_n("pairs of instructions", p.len() as u64);
    par(p.len(), |k| { let v = p.get(k); ctx.state(hash_of(&v)); f(&v, false) });
}
pub fn write(c: &Class) -> Result<Vec<u8>, String> { let mut b = vec![]; c.write_to(&mut b).map_err(|e| format!("write error: {e}"))?; Ok(b) }
pub fn read(b: &[u8]) -> Result<Class, String> {
    let mut r = b;
    let c = Class::read_from(&mut r).map_err(|e| format!("read error: {e}"))?;
    if !r.is_empty() { return Err(format!("reader left {} bytes", r.len())) }
    Ok(c)
}
pub fn same(what: &str, want: &V, got: &V) -> Result<(), String> { match diff(want, got) { None => Ok(()), Some(d) => Err(format!("{what}: {d}")) } }

pub fn c01(ctx: &'static Ctx) -> i32 {
    ctx.rule("every class of the bounded grammar and of the families (words of look-alikes in every list, sizes of every list and string, pool sizes, moved bodies, nesting, flags, instruction pairs), built through public constructors, written and read back; non-trivial: reading succeeded and content compared; distinct: hash of written bytes");
    let tables = [Table::Absent, Table::Empty, Table::Full, Table::Unused, Table::Two];
    each(ctx, &|v: &V, _| {
        let mut bs = vec![]; conc::collect_bsms(v, &mut bs);
        let ts: &[Table] = if bs.is_empty() { if v.at(7).l().is_empty() && v.at(8).l().len() < 3 { &[Table::Absent, Table::Empty, Table::Unused] } else { &tables[..1] } } else { &tables };
        for t in ts {
            ctx.case(|| format!("{t:?} {v:?}"), || {
                let cl = conc::class_with(v, *t);
                let b = write(&cl)?; ctx.steps(1);
                let r = read(&b)?; ctx.steps(1);
                keep_order(|| same("after write+read", v, &abs::class(&r)?))?;
                // the listed bootstrap methods stay listed, in one table at the end
                let table = |c: &Class| c.attributes.iter().enumerate().filter_map(|(i, a)| if let coffer::prelude::ClassAttribute::BootstrapMethods(b) = a { Some((i, b.clone())) } else { None }).collect::<Vec<_>>();
                let (had, has) = (table(&cl), table(&r));
                if !had.is_empty() || !bs.is_empty() {
                    if has.len() != 1 || has[0].0 + 1 != r.attributes.len() { return Err(format!("bootstrap tables after write+read at {:?}", has.iter().map(|h| h.0).collect::<Vec<_>>())) }
                    let mut h = vec![]; for b in &has[0].1 { h.push(abs::bsm(b)?) }
                    for (_, l) in &had { for b in l { if !h.contains(&abs::bsm(b)?) { return Err(format!("listed bootstrap method {b:?} lost")) } } }
                    for b in &bs { if !h.contains(b) { return Err(format!("bootstrap method {b:?} not listed")) } }
                } else if !has.is_empty() { return Err("bootstrap table out of nothing".into()) }
                let b2 = write(&r)?; let r2 = read(&b2)?; ctx.steps(2);
                keep_order(|| same("after second write+read", v, &abs::class(&r2)?))?;
                Ok(fnv(&b))
            });
        }
    });
    // line numbers and labels behind the last instruction
    let lns: Vec<Vec<V>> = vec![vec![L(vec![I(3), I(7)])], vec![L(vec![I(3), I(7)]), L(vec![I(3), I(8)])], vec![L(vec![I(2), I(1)]), L(vec![I(3), I(1)])], vec![L(vec![I(0), I(5)]), L(vec![I(3), I(65535)]), L(vec![I(3), I(0)])]];
    for ln in &lns { for lv in [vec![], vec![L(vec![I(0), I(3), s("x"), s("I"), I(1)])], vec![L(vec![I(3), I(3), s("x"), s("I"), I(1)])]] {
        let v = gen::wrap_code(gen::codev(vec![gen::opn(0), gen::opn(0), gen::ret()], vec![], ln.clone(), lv.clone(), vec![], vec![]));
        ctx.case(|| format!("line number at the end: {v:?}"), || { let b = write(&conc::class(&v))?; let r = read(&b)?; ctx.steps(2); same("after write+read", &v, &abs::class(&r)?)?; Ok(fnv(&b)) });
    } }
    // the attributes of a method body keep their order
    use coffer::prelude::{CodeAttribute, MethodAttribute};
    let lv = |a: i64, n: &str, d: &str| L(vec![I(0), I(2), s(n), s(d), I(a)]);
    let vars: [(Vec<V>, Vec<V>); 3] = [(vec![lv(0, "x", "I")], vec![]), (vec![], vec![lv(0, "x", "TT;")]), (vec![lv(0, "x", "LA;"), lv(1, "y", "I")], vec![lv(0, "x", "TT;")])];
    let ta = |n: &'static str| N(n, vec![L(vec![gen::tann(vec![I(0x44), I(0)], L(vec![]), "LT;", vec![])])]);
    let raw = |n: &str| N("raw", vec![s(n), B(vec![1])]);
    let alph = [raw("X"), raw("Y"), ta("RVTA"), ta("RITA"), N("lv", vec![])];
    let mut orders = vec![]; let mut w = vec![]; let ix = [0usize, 1, 2, 3, 4];
    for n in 0..=ctx.pick(4usize, 5) { for k in 0..5usize.pow(n as u32) { word(k, n, &ix, &mut w); if w.iter().filter(|x| **x == 4).count() <= 1 { orders.push(w.clone()) } } }
    ctx.tag_n("orders of code attributes", orders.len() as u64);
    par(orders.len() * 6, |k| {
        let (o, (lv, lvt), lines) = (&orders[k / 6], &vars[k % 3], k / 3 % 2 == 1);
        let rest: Vec<V> = o.iter().filter(|x| **x != 4).map(|x| alph[*x].clone()).collect();
        let has = o.contains(&4);
        let v = gen::codev(vec![gen::opn(0), gen::opn(0), gen::ret()], vec![], if lines { vec![L(vec![I(1), I(9)])] } else { vec![] }, if has { lv.clone() } else { vec![] }, if has { lvt.clone() } else { vec![] }, rest);
        ctx.case(|| format!("order {o:?}: {v:?}"), || {
            let mut code = conc::code(&v);
            if has { let l = code.attrs.remove(0); code.attrs.insert(o.iter().position(|x| *x == 4).unwrap(), l) }
            let kinds = |c: &coffer::code::Code| c.attrs.iter().map(|a| match a { CodeAttribute::LocalVariables(_) => "variables".to_string(), CodeAttribute::VisibleTypeAnnotations(_) => "RVTA".into(), CodeAttribute::InvisibleTypeAnnotations(_) => "RITA".into(), CodeAttribute::Raw(r) => format!("{:?}", r.name) }).collect::<Vec<_>>();
            let want = kinds(&code);
            let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(code));
            let b = write(&cl)?; let r = read(&b)?; ctx.steps(2);
            same("after write+read", &gen::wrap_code(v.clone()), &abs::class(&r)?)?;
            let MethodAttribute::Code(c) = &r.methods[0].attributes[0] else { return Err("no code".into()) };
            if kinds(c) != want { return Err(format!("code attributes {want:?} read back as {:?}", kinds(c))) }
            ctx.state(hash_of(&(o, &v)));
            Ok(fnv(&b))
        });
    });
    ctx.finish("model_checking")
}
pub fn c02(ctx: &'static Ctx) -> i32 {
    ctx.rule("every class of the bounded grammar and of the families written and parsed by the independent parser; distinct: hash of written bytes");
    let tables = [Table::Absent, Table::Empty, Table::Full, Table::Unused, Table::Two];
    each(ctx, &|v: &V, _| {
        let mut bs = vec![]; conc::collect_bsms(v, &mut bs);
        let ts: &[Table] = if bs.is_empty() { if v.at(7).l().is_empty() && v.at(8).l().len() < 3 { &[Table::Absent, Table::Empty, Table::Unused] } else { &tables[..1] } } else { &tables };
        for t in ts {
            ctx.case(|| format!("{t:?} {v:?}"), || {
                let cl = conc::class_with(v, *t);
                let b = write(&cl)?; ctx.steps(1);
                let (p, has) = keep_order(|| parse::parse_all(&b)).map_err(|e| format!("written file is malformed: {e}; bytes {}", clip(&hex(&b))))?;
                same("written file says", v, &p)?;
                // its bootstrap table: what was listed and what is used, nothing else
                let mut listed = vec![]; let mut any = !bs.is_empty();
                for a in &cl.attributes { if let coffer::prelude::ClassAttribute::BootstrapMethods(l) = a { any = true; for x in l { listed.push(abs::bsm(x)?) } } }
                match has {
                    None if any => return Err("the file has no bootstrap table".into()),
                    Some(_) if !any => return Err("the file has a bootstrap table".into()),
                    Some((_, h)) => {
                        let all: std::collections::HashSet<&V> = h.iter().collect();
                        if let Some(x) = listed.iter().chain(&bs).find(|x| !all.contains(x)) { return Err(format!("bootstrap method {x:?} is not in the file's table")) }
                        let want: std::collections::HashSet<&V> = listed.iter().chain(&bs).collect();
                        if let Some(x) = h.iter().find(|x| !want.contains(x)) { return Err(format!("the file's table lists {x:?}, which the class does not have")) }
                    }
                    None => {}
                }
                Ok(fnv(&b))
            });
        }
    });
    ctx.finish("model_checking")
}
/// All encoding choices explored per class.
pub fn choices(thorough: bool) -> Vec<enc::Ch> {
    let d = enc::Ch::default();
    let mut v = vec![d.clone(), enc::Ch { perm: 1, ..d.clone() }, enc::Ch { perm: 2, no_dedup: true, ..d.clone() }, enc::Ch { junk: 300, ldc: 1, wide: true, jump_w: true, bsm_first: true, frames: true, ..d.clone() },
        enc::Ch { ldc: 2, tables_last: true, split: true, multi1: true, ..d.clone() }, enc::Ch { ldc: 3, perm: 1, no_dedup: true, junk: 5, bsm_first: true, empty_bsm: true, ..d.clone() }, enc::Ch { ldc: 4, frames: true, split: true, perm: 1, ..d.clone() }];
    if thorough {
        v.clear();
        for m in 0..512u32 { for perm in 0..3 { let b = |k: u32| m >> k & 1 == 1; v.push(enc::Ch { junk: if b(0) { 300 } else { 0 }, no_dedup: b(1), perm, ldc: if b(2) { 3 } else { 0 }, wide: b(3), jump_w: b(3), bsm_first: b(4), frames: b(5), split: b(6), tables_last: b(7), empty_bsm: b(8), multi1: b(2), fill: 0 }) } }
    }
    v
}
pub fn c03(ctx: &'static Ctx) -> i32 {
    ctx.rule("every class of the bounded grammar and of the families encoded by the independent encoder under every listed encoding choice (pool order, padding, duplicates, wide forms, table splitting), then read; distinct: hash of file");
    ctx.assume("multiple LineNumberTable/LocalVariableTable attributes per Code are legal (JVMS 4.7.12-14) and read as one table; StackMapTable is dropped by design");
    let q = choices(false);
    ctx.note("choices_all_classes", q.len());
    let one = |v: &V, ch: &enc::Ch| ctx.case(|| format!("{ch:?} {v:?}"), || {
        let b = enc::encode(v, ch);
        let (p, table) = parse::parse_all(&b).map_err(|e| format!("MODEL: encoder and parser disagree: {e}"))?;
        same("MODEL: encoder/parser", v, &p)?;
        let r = read(&b).map_err(|e| format!("valid file rejected: {e}; bytes {}", clip(&hex(&b))))?; ctx.steps(1);
        same("read as", v, &abs::class(&r)?)?;
        let mut got = vec![]; for (i, a) in r.attributes.iter().enumerate() { if let coffer::prelude::ClassAttribute::BootstrapMethods(l) = a { let mut h = vec![]; for x in l { h.push(abs::bsm(x)?) } got.push((i, h)) } }
        let want: Vec<_> = table.into_iter().collect();
        if got != want { return Err(format!("bootstrap table {} read as {}", clip(&format!("{want:?}")), clip(&format!("{got:?}")))) }
        Ok(fnv(&b))
    });
    each(ctx, &|v: &V, large| for ch in if large { &q[..1] } else { &q[..] } { one(v, ch) });
    super::attrs::code_words(ctx, ctx.pick(3, 4), false);
    // wide branches over long distances
    let w = enc::Ch { jump_w: true, ..Default::default() };
    let far = fam::far();
    ctx.tag_n("long branches", far.len() as u64);
    par(far.len(), |k| one(&far[k], &w));
    // pools up to the greatest size
    let reps = fam::reps(); let js = [250usize, 251, 252, 253, 24570, 24571, 24572, 24573, 24574, 24575, 24576, 24577, 48000, 49100];
    ctx.tag_n("large pools of unused entries", (reps.len() * js.len()) as u64);
    par(reps.len() * js.len(), |k| for perm in 0..2 { one(&reps[k / js.len()], &enc::Ch { junk: js[k % js.len()], perm, ..Default::default() }) });
    for v in &reps { for perm in 0..2 { for fill in 1..=3 { one(v, &enc::Ch { fill, perm, ..Default::default() }) } } }
    // all combinations of choices on the classes that exercise them
    let mut small: Vec<V> = gen::codes().into_iter().map(gen::wrap_code).collect();
    small.push(gen::everything());
    if ctx.thorough() { small.extend(gen::simple_insns().into_iter().map(|i| gen::wrap_code(gen::code1(i)))) }
    let all = choices(true);
    ctx.note("choices_combined", all.len());
    par(small.len() * all.len(), |k| one(&small[k / all.len()], &all[k % all.len()]));
    ctx.finish("model_checking")
}
