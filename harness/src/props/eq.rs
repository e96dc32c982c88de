//! C25: equality, hashing and cloning of values follow their content.
use crate::engine::*;
use crate::v::*;
use crate::{conc, fam, gen};
use coffer::prelude::*;
use std::hash::Hash;

type H<T> = Option<fn(&T) -> u64>;
fn h<T: Hash>(t: &T) -> u64 { hash_of(t) }
/// All pairs: equal exactly when described by the same term; equal values hash alike; clones are equal.
fn pairs<T: PartialEq + Clone + Send + Sync>(ctx: &Ctx, what: &str, mut terms: Vec<V>, make: impl Fn(&V) -> T + Sync, hash: H<T>) {
    terms.sort(); terms.dedup();
    let owned: Vec<T> = terms.iter().map(&make).collect();
    let lent: Vec<T> = terms.iter().map(|v| conc::borrowing(|| make(v))).collect();
    ctx.tag_n(what, terms.len() as u64);
    let n = terms.len();
    par(n, |i| {
        ctx.state(hash_of(&(what, &terms[i])));
        ctx.case(|| format!("{what} {:?}", terms[i]), || {
            let a = &owned[i]; let c = a.clone();
            if c != *a || lent[i] != *a || *a != lent[i] || !(c == lent[i]) || *a != *a { return Err("not equal to itself, its clone, or the same content with borrowed strings".into()) }
            if let Some(h) = hash { if h(a) != h(&c) || h(a) != h(&lent[i]) || h(a) != h(a) { return Err("equal values hash differently".into()) } }
            for j in 0..n { if i != j {
                if *a == owned[j] || owned[j] == *a || *a == lent[j] || !(lent[i] != owned[j]) { return Err(format!("equal to {:?}", clip(&format!("{:?}", terms[j])))) }
            } }
            ctx.steps(n as u64); ctx.more(n as u64);
            Ok(i as u64)
        })
    });
}
fn members() -> Vec<V> {
    let mut o = vec![];
    for k in ["field", "method", "imethod"] { for w in ["A", "B", "A/B", ""] { for n in ["m", "n", "A", "", "<init>"] { for d in if k == "field" { ["I", "[I", "LA;", "J"] } else { ["()V", "(I)V", "()I", "(LA;)V"] } { o.push(gen::member(k, w, n, d)) } } } }
    o
}
fn handles() -> Vec<V> {
    let mut o = vec![];
    for k in 1..=9 { for m in members().into_iter().step_by(3) { o.push(gen::mh(k, m)) } }
    o
}
/// Every part of the structure varied on its own, down to arguments of arguments.
fn dynamics() -> Vec<V> {
    let mut o = gen::dyns(); o.extend(gen::indys());
    let mut args: Vec<V> = gen::consts().into_iter().step_by(3).collect(); args.extend(gen::dyns().into_iter().take(5));
    let h0 = gen::bsm_handle(0);
    for n in ["d", "e", ""] { for d in ["I", "J", "()V"] { for k in 0..3 {
        o.push(gen::dynv(n, d, gen::bsm_handle(k), vec![]));
        for a in &args { o.push(gen::dynv(n, d, gen::bsm_handle(k), vec![a.clone()])) }
    } } }
    for a in args.iter().take(14) { for b in args.iter().take(14) {
        o.push(gen::dynv("d", "I", h0.clone(), vec![a.clone(), b.clone()]));
        o.push(gen::dynv("d", "I", h0.clone(), vec![gen::dynv("d", "I", h0.clone(), vec![a.clone()]), b.clone()]));
        o.push(gen::dynv("d", "I", h0.clone(), vec![gen::dynv("d", "I", h0.clone(), vec![gen::dynv("d", "I", h0.clone(), vec![a.clone(), b.clone()])])]));
    } }
    o
}
fn raw_entry(v: &V) -> RawConstantEntry {
    use RawConstantEntry::*;
    let x = |k: usize| v.at(k).i() as u16;
    match v.name() {
        "utf8" => WTF8(conc::ws(v.at(0))), "int" => Int(v.at(0).i() as i32), "float" => Float(f32::from_bits(v.at(0).i() as u32).into()), "long" => Long(v.at(0).i()), "double" => Double(f64::from_bits(v.at(0).i() as u64).into()),
        "class" => Class(x(0)), "string" => String(x(0)), "mtype" => MethodType(x(0)), "module" => Module(x(0)), "package" => Package(x(0)),
        "field" => Field(x(0), x(1)), "method" => Method(x(0), x(1)), "imethod" => InterfaceMethod(x(0), x(1)), "nt" => NameAndType(x(0), x(1)), "dyn" => Dynamic(x(0), x(1)), "indy" => InvokeDynamic(x(0), x(1)),
        "mh" => MethodHandle(x(0) as u8, x(1)), _ => unreachable!(),
    }
}
fn raw_entries() -> Vec<V> {
    let mut o = vec![];
    for s in gen::strings() { o.push(N("utf8", vec![s])) }
    for x in [0i64, 1, -1, 2, 255, 256, 0x7fffffff, -0x80000000] { o.push(N("int", vec![I(x)])); o.push(N("long", vec![I(x)])); }
    for x in [1i64 << 32, 1 << 33, i64::MIN, i64::MAX] { o.push(N("long", vec![I(x)])) }
    for x in [0u32, 0x80000000, 1, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0xffc00000, 0x7f800001] { o.push(N("float", vec![I(x as i64)])) }
    for x in [0u64, 1 << 63, 1, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0x8000000000000001] { o.push(N("double", vec![I(x as i64)])) }
    let ks = [0i64, 1, 2, 255, 256, 257, 65535];
    for n in ["class", "string", "mtype", "module", "package"] { for x in ks { o.push(N(n, vec![I(x)])) } }
    for n in ["field", "method", "imethod", "nt", "dyn", "indy"] { for x in ks { for y in ks { o.push(N(n, vec![I(x), I(y)])) } } }
    for x in 0..=10 { for y in ks { o.push(N("mh", vec![I(x), I(y)])) } }
    o
}
fn vt(v: &V) -> VerificationType {
    use VerificationType::*;
    match v.at(0).i() { 0 => Top, 1 => Int, 2 => Float, 3 => Double, 4 => Long, 5 => Null, 6 => UninitializedThis, 7 => Object(conc::ws(v.at(1))), _ => UninitializedVariable(Label(v.at(1).i() as u32)) }
}
fn vts() -> Vec<V> { let mut o: Vec<V> = (0..7).map(|t| N("vt", vec![I(t)])).collect(); for n in ["A", "B", "[I", ""] { o.push(N("vt", vec![I(7), s(n)])) } for k in [0i64, 1, 2, 65535] { o.push(N("vt", vec![I(8), I(k)])) } o }

pub fn c25(ctx: &'static Ctx) -> i32 {
    ctx.rule("for every value type: all ordered pairs of values of a family in which every component is varied on its own; equal iff the contents are the same (strings owned or borrowed, bootstrap methods shared or not), equal values hash alike, clones are equal; values read back are == to those written, and two reads of one file are ==");
    let mut tys = gen::field_descs(); tys.extend(gen::method_descs());
    for a in ["V", "I", "[I", "[[I", "[LA;", "LA;", "LAB;", "L[A;", "J", "D", "B", "Z", "S", "C", "F"] { for b in ["I", "J", "LA;", "[J"] { tys.push(s(&format!("({b}){a}"))); tys.push(s(&format!("({b}{b}){a}"))); tys.push(s(&format!("({b}I){a}"))); tys.push(s(&format!("(I{b}){a}"))); } }
    for n in [1usize, 2, 127, 128, 254, 255] { for t in ["I", "J", "LA;", "LB;"] { tys.push(s(&format!("{}{t}", "[".repeat(n)))) } }
    pairs(ctx, "type", tys, conc::ty, Some(h));
    pairs(ctx, "member", members(), conc::member, Some(h));
    pairs(ctx, "method handle", handles(), conc::mh, Some(h));
    let mut ks = gen::consts(); ks.extend(members()); ks.extend(handles().into_iter().step_by(5));
    for w in ["A", "I", "()V", "[I", ""] { ks.push(N("string", vec![s(w)])); ks.push(N("cls", vec![s(w)])) }
    pairs(ctx, "constant", ks.clone(), conc::konst, Some(h));
    let ds = dynamics();
    pairs(ctx, "dynamic", ds.clone(), conc::dynamic, Some(h));
    pairs(ctx, "bootstrap method", ds.iter().map(|d| d.at(2).clone()).collect(), conc::bsm, Some(h));
    let both: Vec<V> = ds.iter().filter(|d| d.at(1).st().first() != Some(&40)).cloned().chain(gen::consts()).collect();
    pairs(ctx, "constant or dynamic", both, |v| if v.name() == "dyn" { OrDynamic::Dynamic(conc::dynamic(v)) } else { OrDynamic::Static(conc::konst(v)) }, Some(h));
    pairs(ctx, "pool entry", raw_entries(), raw_entry, Some(h));
    pairs(ctx, "verification type", vts(), vt, Some(h));
    let mut fr = vec![];
    for o in [0i64, 1, 63, 64, 65535] {
        fr.push(N("same", vec![I(o)])); for k in 1..4 { fr.push(N("chop", vec![I(o), I(k)])) }
        for t in vts() { fr.push(N("one", vec![I(o), t.clone()])); fr.push(N("app", vec![I(o), L(vec![t.clone()])])); fr.push(N("full", vec![I(o), L(vec![t.clone()]), L(vec![])])); fr.push(N("full", vec![I(o), L(vec![]), L(vec![t.clone()])])); for u in vts().into_iter().step_by(3) { fr.push(N("app", vec![I(o), L(vec![t.clone(), u.clone()])])); fr.push(N("full", vec![I(o), L(vec![t.clone()]), L(vec![u.clone()])])); fr.push(N("full", vec![I(o), L(vec![t.clone(), u])  , L(vec![])])) } }
    }
    let list = |v: &V| v.l().iter().map(vt).collect::<Vec<_>>();
    pairs(ctx, "frame", fr, |v| { let o = v.at(0).i() as u16; match v.name() { "same" => RawFrame::Same(o), "one" => RawFrame::SameLocalsOneStack(o, vt(v.at(1))), "chop" => RawFrame::Chop(o, v.at(1).i() as u8), "app" => RawFrame::Append(o, list(v.at(1))), _ => RawFrame::Full(o, list(v.at(1)), list(v.at(2))) } }, None);
    pairs(ctx, "element", gen::elements(ctx.pick(1, 2)).into_iter().take(4000).collect(), conc::element, None);
    pairs(ctx, "annotation", gen::anns(), conc::ann, None);
    pairs(ctx, "class attribute", gen::class_attrs(), conc::class_attr, None);
    pairs(ctx, "field attribute", gen::field_attrs(), conc::field_attr, None);
    pairs(ctx, "method attribute", gen::method_attrs(), conc::method_attr, None);
    pairs(ctx, "instruction", gen::simple_insns(), |v| conc::insn(v, &|_| Label(0)), None);
    pairs(ctx, "code", gen::codes(), conc::code, None);
    // signatures: one text, one value
    let mut refs: Vec<String> = vec![];
    for n in ["LA;", "LB;", "LAB;", "LA/B;", "LA.B;", "LA$B;", "TA;", "TB;", "[I", "[J", "[[I", "[LA;", "[TA;", "LA<*>;", "LA<*>.B;", "LA.B<*>;"] { refs.push(n.into()) }
    for a in ["LA;", "TA;", "[I", "LA<*>;", "LB<LA;>;"] { for w in ["", "+", "-"] { refs.push(format!("LA<{w}{a}>;")); refs.push(format!("LA<{w}{a}{a}>;")); refs.push(format!("LA<*{w}{a}>;")); refs.push(format!("LA<{w}{a}*>;")); refs.push(format!("LB<{w}{a}>;")); refs.push(format!("LA<{w}{a}>.B;")); refs.push(format!("LA.B<{w}{a}>;")); refs.push(format!("Lp/A<{w}{a}>.B<{w}{a}>;")) } }
    let text = |v: &V| String::from_utf16(v.st()).unwrap();
    let terms = |v: &[String]| v.iter().map(|x| s(x)).collect::<Vec<V>>();
    pairs(ctx, "reference type signature", terms(&refs), |v| text(v).parse::<RefTypeSignature>().unwrap(), None);
    let mut tps = vec![String::new()];
    for n in ["T", "U"] { for b in [":", ":LA;", "::LA;", ":LA;:LB;", "::LA;:LB;", ":TA;", ":LB;:LA;"] { tps.push(format!("<{n}{b}>")); tps.push(format!("<{n}{b}V{b}>")) } }
    let (mut cs, mut ms) = (vec![], vec![]);
    let cls: Vec<&String> = refs.iter().filter(|r| r.starts_with('L')).collect();
    for p in &tps { for c in cls.iter().step_by(4) { cs.push(format!("{p}{c}")); for i in cls.iter().step_by(13) { cs.push(format!("{p}{c}{i}")); cs.push(format!("{p}{c}{i}LA;")) } } }
    for p in tps.iter().step_by(2) { for a in ["", "I", "J", "II", "LA;", "TA;", "[I", "LA;I", "ILA;"] { for r in ["V", "I", "TA;", "LA;", "[I"] { for t in ["", "^LA;", "^TA;", "^LA;^TA;", "^TA;^LA;", "^LA;^LA;"] { ms.push(format!("{p}({a}){r}{t}")) } } } }
    pairs(ctx, "class signature", terms(&cs), |v| text(v).parse::<ClassSignature>().unwrap(), None);
    pairs(ctx, "method signature", terms(&ms), |v| text(v).parse::<MethodSignature>().unwrap(), None);
    // members and attributes of classes that look alike
    let (mut fs, mut ms, mut cs) = (vec![], vec![], vec![]);
    for v in fam::words(1).into_iter().chain(fam::words(2)).chain(fam::flags()).chain(fam::deep().into_iter().take(20)) { fs.extend(v.at(6).l().iter().cloned()); ms.extend(v.at(7).l().iter().cloned()); cs.extend(v.at(8).l().iter().cloned()) }
    for x in [&mut fs, &mut ms, &mut cs] { x.sort(); x.dedup(); }
    pairs(ctx, "field", fs, |f| Field { access: FieldFlags::from_bits(f.at(0).i() as u16).unwrap(), name: conc::ws(f.at(1)), descriptor: conc::ty(f.at(2)), attrs: f.at(3).l().iter().map(conc::field_attr).collect() }, None);
    pairs(ctx, "method", ms, |f| Method { access: MethodFlags::from_bits(f.at(0).i() as u16).unwrap(), name: conc::ws(f.at(1)), descriptor: conc::ty(f.at(2)), attributes: f.at(3).l().iter().map(conc::method_attr).collect() }, None);
    pairs(ctx, "class attribute of a look-alike", cs, conc::class_attr, None);
    // sharing does not show
    let ds: Vec<V> = ds.into_iter().filter(|d| d.at(1).st().first() != Some(&40)).collect();
    par(ds.len(), |k| ctx.case(|| format!("shared {:?}", ds[k]), || {
        let one = conc::dynamic(&ds[k]); let handle = conc::mh(&gen::bsm_handle(1));
        let make = |a: Vec<Dynamic>| Dynamic::new(BootstrapMethod { handle: handle.clone(), arguments: a.into_iter().map(OrDynamic::Dynamic).collect() }, conc::w(&[65]), Type::Int);
        let shared = make(vec![one.clone(), one.clone()]); let apart = make(vec![conc::dynamic(&ds[k]), conc::dynamic(&ds[k])]);
        if shared != apart || h(&shared) != h(&apart) || shared.get_bsm() != apart.get_bsm() || h(shared.get_bsm()) != h(apart.get_bsm()) { return Err("sharing a bootstrap method makes a difference".into()) }
        let less = make(vec![one]); if less == shared || shared == less { return Err("one argument equals two".into()) }
        Ok(k as u64)
    }));
    // == over a round trip
    let cl = super::c01::corpus(ctx);
    ctx.tag_n("round trips under ==", cl.len() as u64);
    par(cl.len(), |k| ctx.case(|| format!("round trip {:?}", cl[k]), || {
        let c = conc::class(&cl[k]); let b = super::c01::write(&c)?;
        let (r, q) = (super::c01::read(&b)?, super::c01::read(&b)?); ctx.steps(3);
        let plain = |c: &coffer::clazz::Class| c.attributes.iter().filter(|a| !matches!(a, ClassAttribute::BootstrapMethods(_))).cloned().collect::<Vec<_>>();
        if r.fields != c.fields { return Err("fields read back are not ==".into()) }
        if plain(&r) != plain(&c) { return Err("attributes read back are not ==".into()) }
        for (x, y) in r.methods.iter().zip(&c.methods) { if !x.attributes.iter().any(|a| matches!(a, MethodAttribute::Code(_))) && x != y { return Err("methods read back are not ==".into()) } }
        if r.fields != q.fields || plain(&r) != plain(&q) { return Err("two reads of one file are not ==".into()) }
        Ok(fnv(&b))
    }));
    ctx.finish("model_checking")
}
