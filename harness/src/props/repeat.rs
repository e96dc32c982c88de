//! C16: writing is a function of the class; rewriting a written file reproduces it.
use super::c01::{choices, corpus, read, same, write};
use super::layout::{self, It};
use crate::conc::Table;
use crate::engine::*;
use crate::v::*;
use crate::{abs, conc, enc, gen};
use coffer::clazz::Class;

fn hexdiff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} vs {} bytes, first difference at {k}: ..{} / ..{}", a.len(), b.len(), clip(&hex(&a[k.min(a.len())..])), clip(&hex(&b[k.min(b.len())..])))
}
fn eq(what: &str, a: &[u8], b: &[u8]) -> Result<(), String> { if a == b { Ok(()) } else { Err(format!("{what}: {}", hexdiff(a, b))) } }
/// `make` builds the class afresh; all histories of {build, clone, write, read} up to the given number of rounds.
fn cycle(ctx: &Ctx, make: &dyn Fn() -> Class, builds: usize, rounds: usize) -> Result<u64, String> {
    let c = make();
    let w = write(&c)?;
    eq("the same value written twice", &w, &write(&c)?)?;
    eq("a clone written", &w, &write(&c.clone())?)?;
    for _ in 0..builds { eq("an equal value, built separately, written", &w, &write(&make())?)? }
    ctx.steps(2 + builds as u64);
    let r = read(&w)?;
    for _ in 0..builds { let r2 = read(&w)?; same("read twice", &abs::class(&r)?, &abs::class(&r2)?)?; eq("two readings of one file, written", &write(&r)?, &write(&r2)?)?; ctx.steps(2) }
    let mut cur = w.clone();
    for k in 0..rounds { let n = write(&read(&cur)?)?; ctx.steps(2); eq(&format!("rewrite number {}", k + 1), &cur, &n)?; cur = n }
    Ok(fnv(&w))
}
/// A file written by somebody else: the first rewrite may differ from it, later ones may not.
fn foreign(ctx: &Ctx, f: &[u8], reads: usize) -> Result<u64, String> {
    let r = read(f)?; let w = write(&r)?;
    for _ in 0..reads { eq("two readings of one file, written", &w, &write(&read(f)?)?)?; ctx.steps(2) }
    let w2 = write(&read(&w)?)?; eq("rewriting the rewritten file", &w, &w2)?; ctx.steps(2);
    Ok(fnv(&w))
}
fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() { return vec![vec![]] }
    let mut o = vec![];
    for i in 0..v.len() { let mut r = v.to_vec(); let x = r.remove(i); for mut p in perms(&r) { p.insert(0, x.clone()); o.push(p) } }
    o
}
pub fn c16(ctx: &'static Ctx) -> i32 {
    let c = corpus(ctx);
    ctx.rule("every class of the bounded grammar built several times over, written, read several times over and rewritten; non-trivial: all byte strings compared; distinct: hash of the written bytes");
    ctx.assume("hash seeds are not controllable: every map built or read gets fresh ones, and maps of up to six entries are built in every listed insertion order and repeatedly");
    let (builds, rounds) = ctx.pick((2, 2), (6, 4));
    let tables = [Table::Absent, Table::Empty, Table::Full, Table::Unused];
    super::c01::each(ctx, &|v: &V, large| {
        let mut bs = vec![]; conc::collect_bsms(v, &mut bs);
        let (builds, rounds) = if large { (1, 1) } else { (builds, rounds) };
        for t in if bs.is_empty() { &tables[..1] } else { &tables } { ctx.case(|| format!("{t:?} {v:?}"), || cycle(ctx, &|| conc::class_with(v, *t), builds, rounds)) }
    });
    // annotations with several elements, in every order of insertion, everywhere
    let names = ["a", "b", "é", "\u{10000}", "zz", ""];
    let mut multi: Vec<V> = vec![];
    for n in 2..=names.len() {
        let mut pairs: Vec<V> = names[..n].iter().enumerate().map(|(i, s)| gen::pair(s, gen::ev('I', vec![I(i as i64)]))).collect();
        if n > 2 { pairs[1] = gen::pair(names[1], gen::ev('@', vec![gen::ann("LIn;", pairs.clone())])) }
        let orders = if n <= ctx.pick(4, 5) { perms(&pairs) } else { vec![pairs.clone(), pairs.iter().rev().cloned().collect()] };
        for o in orders {
            let a = N("ann", vec![s("LAnn;"), L(o.clone())]);
            let ta = |t: Vec<V>| N("tann", vec![N("tgt", t), L(vec![]), s("LT;"), L(o.clone())]);
            multi.push(gen::wrap_class(vec![N("RVA", vec![L(vec![a.clone(), a.clone()])]), N("RITA", vec![L(vec![ta(vec![I(0), I(1)])])])]));
            multi.push(gen::wrap_field(vec![N("RIA", vec![L(vec![a.clone()])]), N("RVTA", vec![L(vec![ta(vec![I(0x13)])])])]));
            multi.push(gen::wrap_method(vec![N("RVPA", vec![L(vec![L(vec![a.clone()])])]), N("AnnotationDefault", vec![gen::ev('@', vec![a.clone()])]), N("RVTA", vec![L(vec![ta(vec![I(0x14)])])]), gen::codev(vec![gen::opn(0), gen::ret()], vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![ta(vec![I(0x44), I(0)])])])])]));
        }
    }
    let first: std::sync::Mutex<std::collections::HashMap<u64, Vec<u8>>> = Default::default();
    let reps = ctx.pick(12, 48);
    par(multi.len(), |k| {
        let v = &multi[k]; ctx.state(hash_of(v));
        ctx.case(|| format!("{v:?}"), || {
            let h = cycle(ctx, &|| conc::class(v), reps, 2)?;
            // the order of insertion is not part of the value
            let w = write(&conc::class(v))?; let key = hash_of(&abs::class(&conc::class(v))?);
            let mut m = first.lock().unwrap();
            match m.get(&key) { Some(o) => eq("same elements inserted in another order", o, &w)?, None => { m.insert(key, w); } }
            Ok(h)
        });
    });
    ctx.tag_n("annotation maps x insertion orders", multi.len() as u64);
    // bodies with many labels
    let mut ps: Vec<Vec<It>> = vec![];
    { use It::*;
      for d in [1usize, 3, 32760, 32768, 40000] { ps.push(vec![Jmp(153, 5), Tsw(3, -1, vec![0, 1, 2, 4, 5]), Fill(d), Jsr(0), Lsw(0, vec![(5, 1), (-3, 2), (9, 4)]), Jmp(199, 2), Fill(2), Jmp(167, 0), End]) }
      for a in 0..6 { for b in 0..6 { for n in [1usize, 4] { ps.push(vec![Jmp(153, a), Fill(n), Jmp(167, b), Lsw(a, vec![(1, b), (0, a)]), Tsw(b, 0, vec![a]), End]) } } } }
    par(ps.len(), |k| { let p = &ps[k]; ctx.state(hash_of(p)); ctx.case(|| format!("{p:?}"), || cycle(ctx, &|| layout::class_of(layout::build(p)), builds, rounds)) });
    ctx.tag_n("bodies with branches", ps.len() as u64);
    let codes = gen::codes();
    par(codes.len() * 3, |k| { let v = &codes[k / 3]; let st = (k % 3) as u32; ctx.case(|| format!("labels {st}: {v:?}"), || cycle(ctx, &|| { let mut c = conc::class(&gen::wrap_method(vec![])); c.methods[0].attributes.push(coffer::prelude::MethodAttribute::Code(conc::code_lab(v, st))); c }, builds, rounds)) });
    // files in other encodings
    let ch = choices(false);
    par(c.len(), |k| for h in &ch { ctx.case(|| format!("{h:?} {:?}", c[k]), || foreign(ctx, &enc::encode(&c[k], h), ctx.pick(1, 3))) });
    ctx.tag_n("files in other encodings", (c.len() * ch.len()) as u64);
    ctx.finish("model_checking")
}
