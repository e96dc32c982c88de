//! C18 floats, C19 frames, C22 versions and flags, C23 method handles.
use super::c01::{read, same, write};
use crate::engine::*;
use crate::parse::{self, Cp, Rd};
use crate::raw::{self, u2, RawPool};
use crate::v::*;
use crate::{abs, conc, enc, gen};
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::convert::TryFrom;

fn f32s() -> Vec<u32> {
    let mut v = vec![];
    for m in [0u32, 1, 2, 0x3fffff, 0x400000, 0x400001, 0x7fffff] { for e in [0u32, 1, 126, 127, 128, 254, 255] { for s in [0u32, 1] { v.push(s << 31 | e << 23 | m) } } }
    for f in [0.0f32, 1.0, 2.0, 3.0, 0.1, -1.0, -2.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON] { v.push(f.to_bits()) }
    v.sort(); v.dedup(); v
}
fn f64s() -> Vec<u64> {
    let mut v = vec![];
    for m in [0u64, 1, 2, 0x7ffffffffffff, 0x8000000000000, 0x8000000000001, 0xfffffffffffff, 0xffffffff, 0x100000000] { for e in [0u64, 1, 1022, 1023, 1024, 2046, 2047] { for s in [0u64, 1] { v.push(s << 63 | e << 52 | m) } } }
    for f in [0.0f64, 1.0, 2.0, 0.1, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON] { v.push(f.to_bits()) }
    v.sort(); v.dedup(); v
}
macro_rules! float_checks {
    ($pairs:ident, $triples:ident, $coll:ident, $T:ident, $f:ty, $u:ty) => {
        fn $pairs(a: $u, b: $u) -> Result<u64, String> {
            let (x, y) = ($T(<$f>::from_bits(a)), $T(<$f>::from_bits(b)));
            let (fx, fy) = (<$f>::from_bits(a), <$f>::from_bits(b));
            let e = a == b;
            let ck = |c: bool, what: &str| if c { Ok(()) } else { Err(format!("{what} of {a:#x} and {b:#x} ({x:?}, {y:?}) is wrong")) };
            ck((x == y) == e, "==")?; ck((x != y) == !e, "!=")?;
            ck((x == fy) == e, "== with the plain number on the right")?; ck((fx == y) == e, "== with the plain number on the left")?;
            let c = x.cmp(&y);
            ck((c == Ordering::Equal) == e, "cmp/equality")?;
            ck(y.cmp(&x) == c.reverse(), "reversed cmp")?;
            ck(x.partial_cmp(&y) == Some(c), "partial_cmp")?;
            ck((x < y) == (c == Ordering::Less) && (x <= y) == (c != Ordering::Greater) && (x > y) == (c == Ordering::Greater) && (x >= y) == (c != Ordering::Less), "comparison operators")?;
            ck(x.max(y) == if c == Ordering::Greater { x } else { y } && x.min(y) == if c == Ordering::Greater { y } else { x }, "max/min")?;
            if fx < fy { ck(c == Ordering::Less, "order of unequal numbers")? }
            if fx > fy { ck(c == Ordering::Greater, "order of unequal numbers")? }
            if e { ck(hash_of(&x) == hash_of(&y), "hash of equal values")? }
            let g: $T = fx.into(); let h: $f = x.into();
            ck(g.0.to_bits() == a && h.to_bits() == a && x.clone().0.to_bits() == a, "conversion")?;
            Ok(c as i8 as u64)
        }
        fn $triples(a: $u, b: $u, c: $u) -> Result<u64, String> {
            let (x, y, z) = ($T(<$f>::from_bits(a)), $T(<$f>::from_bits(b)), $T(<$f>::from_bits(c)));
            if x <= y && y <= z && !(x <= z) || x < y && y <= z && !(x < z) || x <= y && y < z && !(x < z) { return Err(format!("order not transitive on {a:#x} {b:#x} {c:#x}")) }
            Ok(0)
        }
        fn $coll(v: &[$u]) -> Result<u64, String> {
            let h: HashSet<$T> = v.iter().chain(v).map(|x| $T(<$f>::from_bits(*x))).collect();
            let t: BTreeSet<$T> = v.iter().chain(v).map(|x| $T(<$f>::from_bits(*x))).collect();
            let m: BTreeMap<$T, $u> = v.iter().map(|x| ($T(<$f>::from_bits(*x)), *x)).collect();
            if h.len() != v.len() || t.len() != v.len() { return Err(format!("{} distinct patterns: HashSet has {}, BTreeSet {}", v.len(), h.len(), t.len())) }
            for x in v { let k = $T(<$f>::from_bits(*x)); if !h.contains(&k) || !t.contains(&k) || m.get(&k) != Some(x) { return Err(format!("lookup of {x:#x} fails")) } }
            let mut s: Vec<$T> = v.iter().map(|x| $T(<$f>::from_bits(*x))).collect(); s.sort();
            if s.windows(2).any(|w| !(w[0] < w[1])) { return Err("sorted sequence not ascending".into()) }
            Ok(1)
        }
    };
}
float_checks!(pair32, triple32, coll32, TotalF32, f32, u32);
float_checks!(pair64, triple64, coll64, TotalF64, f64, u64);
macro_rules! rw { ($ctx:expr, $what:expr, $val:expr, $want:expr, $T:ty, $bits:expr) => { $ctx.case(|| $what, || {
    let mut b = vec![]; ReadWrite::write_to(&$val, &mut b).map_err(|e| e.to_string())?; $ctx.steps(2);
    if b != $want { return Err(format!("written as {}", hex(&b))) }
    let r: $T = ReadWrite::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
    if $bits(&r) != $bits(&$val) { return Err("read back with other bits".into()) }
    for n in 0..b.len() { if <$T as ReadWrite>::read_from(&mut &b[..n]).is_ok() { return Err(format!("prefix of {n} bytes accepted")) } }
    Ok(fnv(&b)) }) } }
pub fn c18(ctx: &'static Ctx) -> i32 {
    ctx.rule("all pairs and triples of boundary bit patterns (every exponent class times every mantissa class times sign) under ==, <, cmp, hash and collections; every pattern through every position that holds a float, compared bit for bit by the independent parser and after reading; thorough: all 2^32 f32 patterns; distinct: hash of written bytes");
    let (a, b) = (f32s(), f64s());
    ctx.note("f32 patterns", a.len()); ctx.note("f64 patterns", b.len());
    for x in &a { ctx.state(*x as u64 | 1 << 40); for y in &a { ctx.case(|| format!("f32 {x:#x} {y:#x}"), || pair32(*x, *y)) } }
    for x in &b { ctx.state(*x); for y in &b { ctx.case(|| format!("f64 {x:#x} {y:#x}"), || pair64(*x, *y)) } }
    par(a.len(), |i| for y in &a { for z in &a { ctx.case(|| format!("f32 {:#x} {y:#x} {z:#x}", a[i]), || triple32(a[i], *y, *z)) } });
    par(b.len(), |i| for y in &b { for z in &b { ctx.case(|| format!("f64 {:#x} {y:#x} {z:#x}", b[i]), || triple64(b[i], *y, *z)) } });
    ctx.case(|| "collections of all f32 patterns".into(), || coll32(&a));
    ctx.case(|| "collections of all f64 patterns".into(), || coll64(&b));
    // serialised form
    for x in &a { rw!(ctx, format!("f32 {x:#x} bytes"), f32::from_bits(*x), x.to_be_bytes(), f32, |f: &f32| f.to_bits()); rw!(ctx, format!("TotalF32 {x:#x} bytes"), TotalF32(f32::from_bits(*x)), x.to_be_bytes(), TotalF32, |f: &TotalF32| f.0.to_bits()) }
    for x in &b { rw!(ctx, format!("f64 {x:#x} bytes"), f64::from_bits(*x), x.to_be_bytes(), f64, |f: &f64| f.to_bits()); rw!(ctx, format!("TotalF64 {x:#x} bytes"), TotalF64(f64::from_bits(*x)), x.to_be_bytes(), TotalF64, |f: &TotalF64| f.0.to_bits()) }
    // every position
    let pos: Vec<(&str, fn(V) -> V)> = vec![
        ("push", |c| gen::wrap_code(gen::code1(N("push", vec![c])))),
        ("push twice", |c| gen::wrap_code(gen::codev(vec![N("push", vec![c.clone()]), N("push", vec![N("float", vec![I(0)])]), N("push", vec![N("double", vec![I(0)])]), N("push", vec![N("int", vec![c.at(0).clone()].into_iter().map(|x| I(x.i() as i32 as i64)).collect())]), N("push", vec![N("long", vec![c.at(0).clone()])]), N("push", vec![c]), gen::ret()], vec![], vec![], vec![], vec![], vec![]))),
        ("ConstantValue", |c| gen::wrap_field(vec![N("ConstantValue", vec![c])])),
        ("annotation", |c| gen::wrap_class(vec![N("RVA", vec![L(vec![gen::ann("LA;", vec![gen::pair("v", ev_of(&c))])])])])),
        ("annotation array", |c| gen::wrap_method(vec![N("AnnotationDefault", vec![gen::ev('[', vec![L(vec![ev_of(&c), gen::ev('F', vec![I(0)]), gen::ev('D', vec![I(0)]), ev_of(&c)])])])])),
        ("bootstrap argument", |c| gen::wrap_code(gen::code1(N("indy", vec![N("dyn", vec![s("n"), s("()V"), N("bsm", vec![gen::bsm_handle(0), L(vec![c])])])])))),
    ];
    let mut cs: Vec<V> = a.iter().map(|x| N("float", vec![I(*x as i64)])).collect();
    cs.extend(b.iter().map(|x| N("double", vec![I(*x as i64)])));
    let through = |name: &str, v: &V| ctx.case(|| format!("{name}: {v:?}"), || {
        let w = write(&conc::class(v))?; ctx.steps(2);
        same("the file says", v, &parse::parse_class(&w)?)?;
        same("read back", v, &abs::class(&read(&w)?)?)?;
        for k in [0, 2] { let e = enc::encode(v, &enc::Ch { ldc: k, ..Default::default() }); same("read from another encoding", v, &abs::class(&read(&e)?)?)?; }
        Ok(fnv(&w))
    });
    par(cs.len(), |k| for (n, f) in &pos { through(n, &f(cs[k].clone())) });
    // pairs of constants side by side stay apart
    let mut ps: Vec<(V, V)> = vec![];
    for t in 0..2 { let sel: Vec<&V> = cs.iter().filter(|c| (c.name() == "float") == (t == 0)).collect(); for x in &sel { for y in &sel { ps.push(((*x).clone(), (*y).clone())) } } }
    par(ps.len(), |k| { let (x, y) = &ps[k]; through("two constants", &gen::wrap_code(gen::codev(vec![N("push", vec![x.clone()]), N("push", vec![y.clone()]), gen::ret()], vec![], vec![], vec![], vec![], vec![]))) });
    if ctx.thorough() {
        let n = 1usize << 12;
        par(n, |k| { if ctx.stopped() { return } ctx.case(|| format!("f32 patterns {k}*2^20.."), || {
            for j in 0..1u32 << 20 {
                let x = (k as u32) << 20 | j;
                for y in [x, x ^ 1, x ^ 0x8000_0000, x ^ 0x0040_0000, x.wrapping_add(1)] { pair32(x, y)?; }
                let mut b = [0u8; 4]; ReadWrite::write_to(&TotalF32(f32::from_bits(x)), &mut &mut b[..]).map_err(|e| e.to_string())?;
                if b != x.to_be_bytes() { return Err(format!("{x:#x} written as {b:?}")) }
                let r: TotalF32 = ReadWrite::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
                if r.0.to_bits() != x { return Err(format!("{x:#x} read as {:#x}", r.0.to_bits())) }
            }
            ctx.more((1 << 20) - 1); Ok(k as u64)
        }) });
        ctx.tag_n("all f32 patterns", 1 << 32);
    }
    ctx.finish("model_checking")
}
fn ev_of(c: &V) -> V { gen::ev(if c.name() == "float" { 'F' } else { 'D' }, vec![c.at(0).clone()]) }

// ---------------------------------------------------------------- C19
/// Label n stands for offset n.
#[derive(Default)]
struct LabCp(abs::RecCp);
impl ConstantPoolWriter for LabCp {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 { self.0.insert_raw(v) }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 { self.0.insert_bsm(b) }
    fn label(&mut self, l: &Label) -> u16 { l.0 as u16 }
}
struct LabRd(MapCp);
impl ConstantPoolReader for LabRd {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> { self.0.read_raw(i) }
    fn resolve_later(&mut self, i: u16, b: std::sync::Arc<once_cell::sync::OnceCell<BootstrapMethod>>) { self.0.resolve_later(i, b) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> { self.0.bootstrap_methods(b) }
    fn get_label(&mut self, i: u32) -> Label { Label(i) }
}
const NAMES: [&str; 3] = ["A", "java/lang/Object", "[I"];
/// Pool 1..: Utf8 name, Class, ..., then an Integer.
fn rd_cp() -> (LabRd, parse::Pool) {
    let mut m = MapCp::new(); let mut e = vec![Cp::Gap];
    for n in NAMES { let k = e.len() as u16; m.entries.insert(k, RawConstantEntry::WTF8(conc::w(&n.encode_utf16().collect::<Vec<_>>()))); e.push(Cp::Utf8(n.encode_utf16().collect())); m.entries.insert(k + 1, RawConstantEntry::Class(k)); e.push(Cp::Class(k)) }
    m.entries.insert(e.len() as u16, RawConstantEntry::Int(7)); e.push(Cp::Int(7));
    (LabRd(m), parse::Pool { e, bsm: vec![], has_bsm: false })
}
fn rec_pool(r: &abs::RecCp) -> Result<parse::Pool, String> {
    let mut e = vec![Cp::Gap];
    for x in &r.e { e.push(match x { RawConstantEntry::WTF8(s) => match abs::ws(s) { S(u) => Cp::Utf8(u), _ => unreachable!() }, RawConstantEntry::Class(u) => Cp::Class(*u), x => return Err(format!("unexpected constant {x:?}")) }) }
    Ok(parse::Pool { e, bsm: vec![], has_bsm: false })
}
fn vt_of(v: &V) -> VerificationType {
    use VerificationType::*;
    match v.at(0).i() { 0 => Top, 1 => Int, 2 => Float, 3 => Double, 4 => Long, 5 => Null, 6 => UninitializedThis, 7 => Object(conc::ws(v.at(1))), _ => UninitializedVariable(Label(v.at(1).i() as u32)) }
}
fn frame_of(v: &V) -> RawFrame {
    let o = v.at(0).i() as u16; let vs = |v: &V| v.l().iter().map(vt_of).collect::<Vec<_>>();
    match v.name() { "same" => RawFrame::Same(o), "one" => RawFrame::SameLocalsOneStack(o, vt_of(v.at(1))), "chop" => RawFrame::Chop(o, v.at(1).i() as u8), "append" => RawFrame::Append(o, vs(v.at(1))), _ => RawFrame::Full(o, vs(v.at(1)), vs(v.at(2))) }
}
fn frame_v(f: &RawFrame) -> V { abs::frame(f, &|l| l.0 as i64) }
fn vts() -> Vec<V> {
    let mut v: Vec<V> = (0..7).map(|t| N("vt", vec![I(t)])).collect();
    for n in NAMES { v.push(N("vt", vec![I(7), s(n)])) }
    for o in [0i64, 1, 255, 256, 65535] { v.push(N("vt", vec![I(8), I(o)])) }
    v
}
fn wr_frame(f: &RawFrame) -> Result<(Vec<u8>, LabCp), String> { let mut cp = LabCp::default(); let mut b = vec![]; ConstantPoolReadWrite::write_to(f, &mut cp, &mut b).map_err(|e| e.to_string())?; Ok((b, cp)) }
fn rd_frame(b: &[u8]) -> Result<(RawFrame, usize), String> { let (mut c, _) = rd_cp(); let mut r = b; let f = RawFrame::read_from(&mut c, &mut r).map_err(|e| e.to_string())?; Ok((f, b.len() - r.len())) }
fn frame_rt(ctx: &Ctx, v: &V) -> Result<u64, String> {
    let f = frame_of(v);
    let (b, cp) = wr_frame(&f)?; ctx.steps(2);
    let pool = rec_pool(&cp.0)?; let mut r = Rd::new(&b);
    let p = parse::frame(&mut r, &pool, None).map_err(|e| format!("written as {}: {e}", hex(&b)))?; r.end()?;
    same("the bytes say", v, &p)?;
    // and back
    let mut m = MapCp::new(); for (i, e) in cp.0.e.iter().enumerate() { m.entries.insert(i as u16 + 1, e.clone()); }
    let mut l = LabRd(m); let mut q = &b[..];
    let back = RawFrame::read_from(&mut l, &mut q).map_err(|e| format!("own bytes {} rejected: {e}", hex(&b)))?;
    if !q.is_empty() { return Err(format!("{} bytes of {} left", q.len(), hex(&b))) }
    if back != f { return Err(format!("{f:?} written as {} and read back as {back:?}", hex(&b))) }
    for n in 0..b.len() { if let Ok(x) = RawFrame::read_from(&mut l, &mut &b[..n]) { return Err(format!("first {n} of {} accepted as {x:?}", hex(&b))) } }
    Ok(fnv(&b))
}
/// Bytes of every way to write a frame, built independently of coffer, over rd_cp's pool.
fn vt_b(v: &V) -> Vec<u8> { let mut b = vec![v.at(0).i() as u8]; match b[0] { 7 => { let k = NAMES.iter().position(|n| s(n) == *v.at(1)).unwrap(); b.extend(u2(k as u16 * 2 + 2)) } 8 => b.extend(u2(v.at(1).i() as u16)), _ => {} } b }
fn frame_bytes(v: &V) -> Vec<Vec<u8>> {
    let o = v.at(0).i(); let ob = u2(o as u16);
    let mut out = vec![];
    let cat = |t: u8, parts: &[&[u8]]| { let mut b = vec![t]; for p in parts { b.extend_from_slice(p) } b };
    match v.name() {
        "same" => { if o < 64 { out.push(vec![o as u8]) } out.push(cat(251, &[&ob])) }
        "one" => { let t = vt_b(v.at(1)); if o < 64 { out.push(cat(64 + o as u8, &[&t])) } out.push(cat(247, &[&ob, &t])) }
        "chop" => out.push(cat(251 - v.at(1).i() as u8, &[&ob])),
        "append" => { let t: Vec<u8> = v.at(1).l().iter().flat_map(vt_b).collect(); out.push(cat(251 + v.at(1).l().len() as u8, &[&ob, &t])) }
        _ => { let mut t = vec![]; for k in [1, 2] { t.extend(u2(v.at(k).l().len() as u16)); t.extend(v.at(k).l().iter().flat_map(vt_b)) } out.push(cat(255, &[&ob, &t])) }
    }
    out
}
fn frame_rd(ctx: &Ctx, v: &V) -> Result<u64, String> {
    let mut h = 0;
    for b in frame_bytes(v) {
        let (_, pool) = rd_cp(); let mut r = Rd::new(&b);
        same("MODEL: frame encoder/parser", v, &parse::frame(&mut r, &pool, None)?)?; r.end()?;
        ctx.steps(1);
        let mut padded = b.clone(); padded.extend([0xAA, 0xBB]);
        let (f, n) = rd_frame(&padded).map_err(|e| format!("valid frame {} rejected: {e}", hex(&b)))?;
        if n != b.len() { return Err(format!("frame {} read using {n} bytes", hex(&b))) }
        same("read as", v, &frame_v(&f))?;
        for k in 0..b.len() { if rd_frame(&b[..k]).is_ok() { return Err(format!("first {k} bytes of {} accepted", hex(&b))) } }
        h ^= fnv(&b);
    }
    Ok(h)
}
pub fn c19(ctx: &'static Ctx) -> i32 {
    ctx.rule("every frame kind times every offset delta 0..65535 times verification types; append and full frames over all verification type sequences up to a length; every frame written and decoded by the independent parser, read back, and every encoding of it (short and extended) built independently and read; all 256 frame tags, all 256 verification tags in every position; every truncation; the same frames inside StackMapTable attributes. distinct: hash of bytes");
    ctx.assume("an append frame without locals is not claimed (the format has no form for it)");
    let vt = vts();
    let mut off: Vec<i64> = (0..=300).collect(); off.extend([511, 512, 32767, 32768, 65279, 65280, 65534, 65535]);
    let mut fs: Vec<V> = vec![];
    for o in 0..65536 { fs.push(N("same", vec![I(o)])); for k in 1..=3 { fs.push(N("chop", vec![I(o), I(k)])) } fs.push(N("one", vec![I(o), vt[o as usize % vt.len()].clone()])); fs.push(N("append", vec![I(o), L(vec![vt[o as usize % vt.len()].clone()])])); fs.push(N("full", vec![I(o), L(vec![]), L(vec![])])) }
    for o in &off { for t in &vt { fs.push(N("one", vec![I(*o), t.clone()])); fs.push(N("append", vec![I(*o), L(vec![t.clone()])])) } }
    let mut seqs: Vec<Vec<V>> = vec![]; let ix: Vec<usize> = (0..vt.len()).collect(); let mut w = vec![];
    for n in 0..=3usize { for k in 0..vt.len().pow(n as u32) { word(k, n, &ix, &mut w); seqs.push(w.iter().map(|i| vt[*i].clone()).collect()) } }
    for q in &seqs { if !q.is_empty() { for o in [0i64, 63, 64, 65535] { fs.push(N("append", vec![I(o), L(q.clone())])) } } }
    let m = ctx.pick(2, 3);
    let small: Vec<usize> = vec![0, 3, 7, 8, 11];
    for a in 0..=m { for b in 0..=m {
        let al = if a.max(b) <= 1 || (ctx.thorough() && a.max(b) <= 2) { &ix } else { &small };
        for k in 0..al.len().pow((a + b) as u32) { word(k, a + b, al, &mut w); let q: Vec<V> = w.iter().map(|i| vt[*i].clone()).collect(); fs.push(N("full", vec![I((k % 65536) as i64), L(q[..a].to_vec()), L(q[a..].to_vec())])) }
    } }
    for n in [255usize, 256, 1000, 65535] { for (a, b) in [(n, 0), (0, n), (n, n)] { let q = |n: usize| L((0..n).map(|i| vt[i % vt.len()].clone()).collect()); fs.push(N("full", vec![I(1), q(a), q(b)])) } }
    ctx.tag_n("frames", fs.len() as u64);
    par(fs.len(), |k| {
        let v = &fs[k]; ctx.state(hash_of(v));
        let big = v.name() == "full" && v.at(1).l().len() + v.at(2).l().len() > 100;
        if big { // truncations of these are covered by the small ones
            ctx.case(|| format!("write full frame {} {}", v.at(1).l().len(), v.at(2).l().len()), || { let (b, cp) = wr_frame(&frame_of(v))?; let pool = rec_pool(&cp.0)?; let mut r = Rd::new(&b); same("the bytes say", v, &parse::frame(&mut r, &pool, None)?)?; r.end()?; Ok(fnv(&b)) });
            ctx.case(|| format!("read full frame {} {}", v.at(1).l().len(), v.at(2).l().len()), || { let b = &frame_bytes(v)[0]; let (f, n) = rd_frame(b)?; if n != b.len() { return Err("length".into()) } same("read as", v, &frame_v(&f))?; Ok(fnv(b)) });
            return
        }
        ctx.case(|| format!("write {v:?}"), || frame_rt(ctx, v));
        ctx.case(|| format!("read {v:?}"), || frame_rd(ctx, v));
    });
    // frames that cannot be expressed
    for o in [0u16, 1, 63, 64, 65535] {
        for k in (0..=255u8).filter(|k| !(1..=3).contains(k)) { ctx.case(|| format!("Chop({o}, {k})"), || match wr_frame(&RawFrame::Chop(o, k)) { Err(_) => Ok(1), Ok((b, _)) => Err(format!("written as {}", hex(&b))) }) }
        for n in [4usize, 5, 6, 255, 256, 257, 258, 259, 260, 512, 65536, 65539] { ctx.case(|| format!("Append({o}, {n} locals)"), || match wr_frame(&RawFrame::Append(o, vec![VerificationType::Int; n])) { Err(_) => Ok(1), Ok((b, _)) => Err(format!("written as {}", clip(&hex(&b)))) }) }
        for (a, b) in [(65536usize, 0usize), (0, 65536), (65536, 65536), (131071, 1)] { ctx.case(|| format!("Full({o}, {a} locals, {b} stack)"), || match wr_frame(&RawFrame::Full(o, vec![VerificationType::Int; a], vec![VerificationType::Top; b])) { Err(_) => Ok(1), Ok(_) => Err("written".into()) }) }
    }
    // every frame tag and every verification tag in every position, decided by the independent parser
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0, 5], vec![0, 5, 1], vec![0, 5, 7, 0, 2], vec![0, 5, 8, 1, 0, 4], vec![1, 0, 3, 4, 6], vec![0, 0, 0, 1, 5, 0, 1, 2], vec![1, 2, 3, 4, 5, 6, 0, 0, 0, 0], vec![7, 0, 4, 9, 9, 9], vec![8, 0, 9, 9, 9]];
    let decide = |b: Vec<u8>| {
        ctx.state(fnv(&b) ^ 99);
        ctx.case(|| format!("frame bytes {}", hex(&b)), || {
            ctx.steps(1);
            let (_, pool) = rd_cp(); let mut r = Rd::new(&b);
            match (parse::frame(&mut r, &pool, None), rd_frame(&b)) {
                (Ok(v), Ok((f, n))) => { if n != r.p { return Err(format!("{} bytes used, frame has {}", n, r.p)) } same("read as", &v, &frame_v(&f))?; Ok(fnv(&b)) }
                (Err(_), Err(_)) => Ok(0),
                (Ok(v), Err(e)) => Err(format!("valid frame {v:?} rejected: {e}")),
                (Err(e), Ok((f, _))) => Err(format!("malformed frame ({e}) read as {f:?}")),
            }
        })
    };
    for t in 0..=255u8 { for x in &tails { let mut b = vec![t]; b.extend_from_slice(x); decide(b) } }
    for t in 0..=255u8 { for ob in [0u16, 2, 7, 999] { let o = u2(ob); let (x, y) = (o[0], o[1]);
        decide(vec![64, t, x, y]); decide(vec![127, t, x, y]); decide(vec![247, 1, 0, t, x, y]); decide(vec![252, 0, 0, t, x, y]);
        decide(vec![253, 0, 0, 1, t, x, y]); decide(vec![253, 0, 0, t, x, y, 1]); decide(vec![254, 0, 0, 1, 1, t, x, y]); decide(vec![254, 0, 0, 1, 7, 0, 2, t, x, y]);
        decide(vec![255, 0, 0, 0, 1, t, x, y, 0, 0]); decide(vec![255, 0, 0, 0, 0, 0, 1, t, x, y]); decide(vec![255, 0, 0, 0, 2, 1, t, x, y, 0, 1, 3]); decide(vec![255, 0, 0, 0, 0, 0, 2, 1, t, x, y]) } }
    // class constant references: every index
    for i in 0..=300u16 { let o = u2(i); decide(vec![64, 7, o[0], o[1]]) } for i in [65535u16, 32768] { let o = u2(i); decide(vec![64, 7, o[0], o[1]]) }
    // verification types by themselves
    for v in &vt { ctx.case(|| format!("verification type {v:?}"), || {
        let t = vt_of(v); let mut cp = LabCp::default(); let mut b = vec![]; ConstantPoolReadWrite::write_to(&t, &mut cp, &mut b).map_err(|e| e.to_string())?; ctx.steps(1);
        let pool = rec_pool(&cp.0)?; let mut r = Rd::new(&b); same("the bytes say", v, &parse::vtype(&mut r, &pool, None)?)?; r.end()?;
        if t.is_wide() != matches!(v.at(0).i(), 3 | 4) { return Err("is_wide".into()) }
        Ok(fnv(&b)) }) }
    // inside a class file
    let code = [0xbb, 0, 0, 0x57, 0, 0, 0, 0xb1]; // new A; pop; nop nop nop; return
    let table = |n: u16, body: &[u8]| { let mut p = RawPool::new(); let mut e = vec![]; for x in NAMES { e.push(p.utf(x)); e.push(p.class(x)) } assert_eq!(e, [1, 2, 3, 4, 5, 6]); let mut c = code.to_vec(); c[1..3].copy_from_slice(&u2(2)); let mut b = u2(n).to_vec(); b.extend_from_slice(body); raw::with_code(p, &c, &[], &[("StackMapTable", b)], &[]) };
    let mut tb: Vec<(u16, Vec<u8>)> = vec![(0, vec![]), (1, vec![])];
    for t in 0..=255u8 { for x in &tails { let mut b = vec![t]; b.extend_from_slice(x); tb.push((1, b)) } }
    for v in [N("same", vec![I(1)]), N("same", vec![I(65535)]), N("chop", vec![I(1), I(2)]), N("append", vec![I(0), L(vt[..2].to_vec())]), N("full", vec![I(2), L(vt[..9].to_vec()), L(vt[7..10].to_vec())])] { for x in [N("same", vec![I(0)]), N("one", vec![I(0), vt[9].clone()]), N("one", vec![I(0), N("vt", vec![I(8), I(0)])]), N("one", vec![I(100), N("vt", vec![I(8), I(2)])])] { for n in [1, 2, 3] { let mut b = frame_bytes(&v)[0].clone(); b.extend(&frame_bytes(&x)[0]); tb.push((n, b)) } } }
    ctx.tag_n("StackMapTable attributes", tb.len() as u64);
    par(tb.len(), |k| { let (n, b) = &tb[k]; let f = table(*n, b); ctx.case(|| format!("StackMapTable {n} {}", hex(b)), || { ctx.steps(1); match (parse::parse_class(&f), read(&f)) {
        (Ok(v), Ok(c)) => { same("read as", &v, &abs::class(&c)?)?; Ok(fnv(&f)) }
        (Err(_), Err(_)) => Ok(0),
        (Ok(_), Err(e)) => Err(format!("valid table rejected: {e}")),
        (Err(e), Ok(_)) => Err(format!("malformed table accepted ({e})")),
    } }) });
    ctx.finish("model_checking")
}

// ---------------------------------------------------------------- C22
type FlagTable = (&'static str, Vec<(&'static str, u16, u16)>);
macro_rules! flags { ($T:ident, $($n:ident = $v:expr),*) => { (stringify!($T), vec![$((stringify!($n), $v, <$T>::$n.bits())),*]) } }
/// Named constants with the values of JVMS tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25.
fn flag_tables() -> Vec<FlagTable> {
    vec![
        flags!(ClassFlags, ACC_PUBLIC = 1, ACC_FINAL = 0x10, ACC_SUPER = 0x20, ACC_INTERFACE = 0x200, ACC_ABSTRACT = 0x400, ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000, ACC_MODULE = 0x8000),
        flags!(FieldFlags, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_VOLATILE = 0x40, ACC_TRANSIENT = 0x80, ACC_SYNTHETIC = 0x1000, ACC_ENUM = 0x4000),
        flags!(MethodFlags, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_SYNCHRONIZED = 0x20, ACC_BRIDGE = 0x40, ACC_VARARGS = 0x80, ACC_NATIVE = 0x100, ACC_ABSTRACT = 0x400, ACC_STRICT = 0x800, ACC_SYNTHETIC = 0x1000),
        flags!(InnerClassFlags, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_INTERFACE = 0x200, ACC_ABSTRACT = 0x400, ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000),
        flags!(MethodParameterFlags, ACC_FINAL = 0x10, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000),
        flags!(ModuleFlags, ACC_OPEN = 0x20, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000),
        flags!(RequireFlags, ACC_TRANSITIVE = 0x20, ACC_STATIC_PHASE = 0x40, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000),
        flags!(ExOpFlags, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000),
    ]
}
fn mask(t: &FlagTable) -> u16 { t.1.iter().fold(0, |a, x| a | x.1) }
fn sub(m: u16) -> Vec<u16> { let mut v = vec![]; let mut x = 0u16; loop { v.push(x); x = x.wrapping_sub(m) & m; if x == 0 { break } } v }
fn md(f: i64, r: i64, e: i64, o: i64) -> V { N("Module", vec![s("m"), I(f), none(), L(vec![N("req", vec![s("a"), I(r), none()]), N("req", vec![s("b"), I(0), none()])]), L(vec![N("exp", vec![s("p"), I(e), L(vec![])])]), L(vec![N("open", vec![s("p"), I(o), L(vec![])])]), L(vec![]), L(vec![])]) }
/// A class with `f` in the k-th place that holds flags, and which flag table applies there.
fn place(k: usize, f: i64) -> (V, usize) {
    let base = |fl: i64, ff: i64, mf: i64, ca: Vec<V>, ma: Vec<V>| gen::classv(55, fl, s("A"), s("O"), vec![s("I")], vec![gen::field(1, s("e"), s("I"), vec![]), gen::field(ff, s("f"), s("I"), vec![])], vec![gen::field(1, s("m"), s("()V"), ma), gen::field(mf, s("n"), s("()V"), vec![])], ca);
    let ic = |f: i64| N("InnerClasses", vec![L(vec![N("ic", vec![s("A$B"), none(), s("B"), I(1)]), N("ic", vec![s("A$C"), s("A"), none(), I(f)])])]);
    let mp = |f: i64| N("MethodParameters", vec![L(vec![N("mp", vec![s("x"), I(0)]), N("mp", vec![none(), I(f)])])]);
    match k { 0 => (base(f, 0, 0, vec![], vec![]), 0), 1 => (base(0x21, f, 0, vec![], vec![]), 1), 2 => (base(0x21, 0, f, vec![], vec![]), 2), 3 => (base(0, 0, 0, vec![ic(f)], vec![]), 3), 4 => (base(0, 0, 0, vec![], vec![mp(f)]), 4),
        5 => (base(0, 0, 0, vec![md(f, 0, 0, 0)], vec![]), 5), 6 => (base(0, 0, 0, vec![md(0, f, 0, 0)], vec![]), 6), 7 => (base(0, 0, 0, vec![md(0, 0, f, 0)], vec![]), 7), _ => (base(0, 0, 0, vec![md(0, 0, 0, f)], vec![]), 7) }
}
macro_rules! flag_rw { ($ctx:expr, $tables:expr, $i:expr, $T:ident) => { {
    let t = &$tables[$i]; let m = mask(t);
    $ctx.case(|| format!("{}: all defined flags", t.0), || if <$T>::all().bits() == m { Ok(m as u64) } else { Err(format!("all() is {:#x}, the format defines {m:#x}", <$T>::all().bits())) });
    for x in 0..=65535u16 { $ctx.case(|| format!("{} read {x:#06x}", t.0), || {
        let b = u2(x); $ctx.steps(2);
        let r = <$T as ReadWrite>::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
        if r.bits() & m != x & m { return Err(format!("read as {:#x}", r.bits())) }
        if x & !m == 0 { let mut o = vec![]; ReadWrite::write_to(&<$T>::from_bits(x).ok_or("from_bits")?, &mut o).map_err(|e| e.to_string())?; if o != b { return Err(format!("written as {}", hex(&o))) } }
        for (n, v, have) in &t.1 { if (r.bits() & have != 0) != (x & v != 0) { return Err(format!("{n} is {}", r.bits() & have != 0)) } }
        Ok(r.bits() as u64) }) }
} } }
pub fn c22(ctx: &'static Ctx) -> i32 {
    ctx.rule("all 65536 values of each flag type by itself; in each place of a class file that holds flags, all combinations of defined flags (written, parsed independently, read back) and all 65536 values read; all 65536 major versions times boundary minors, all minors, all single-bit and single-byte corruptions of the magic; distinct: hash of file");
    ctx.assume("bits the format does not define for a place are not claimed (the library drops them by design)");
    let tables = flag_tables();
    for t in &tables { for (n, want, have) in &t.1 { ctx.case(|| format!("{}::{n}", t.0), || if want == have { Ok(*want as u64) } else { Err(format!("{have:#06x}, the format says {want:#06x}")) }) } }
    flag_rw!(ctx, tables, 0, ClassFlags); flag_rw!(ctx, tables, 1, FieldFlags); flag_rw!(ctx, tables, 2, MethodFlags); flag_rw!(ctx, tables, 3, InnerClassFlags);
    flag_rw!(ctx, tables, 4, MethodParameterFlags); flag_rw!(ctx, tables, 5, ModuleFlags); flag_rw!(ctx, tables, 6, RequireFlags); flag_rw!(ctx, tables, 7, ExOpFlags);
    for k in 0..9 {
        let m = mask(&tables[place(k, 0).1]);
        let fs = sub(m); ctx.tag_n("flag combinations in place", fs.len() as u64);
        par(fs.len(), |i| { let (v, _) = place(k, fs[i] as i64); ctx.state(hash_of(&v)); ctx.case(|| format!("place {k} flags {:#06x}", fs[i]), || {
            let b = write(&conc::class(&v))?; ctx.steps(2);
            same("the file says", &v, &parse::parse_class(&b)?)?;
            same("read back", &v, &abs::class(&read(&b)?)?)?; Ok(fnv(&b)) }) });
        // all values on reading: only the defined bits are claimed. The flag field is found by comparing two encodings.
        let (z, o) = (enc::encode(&place(k, 0).0, &Default::default()), enc::encode(&place(k, 0xFFFF).0, &Default::default()));
        let at = z.iter().zip(&o).position(|(a, b)| a != b).unwrap();
        par(65536, |x| { ctx.case(|| format!("place {k} read {x:#06x}"), || {
            let mut b = z.clone(); b[at..at + 2].copy_from_slice(&u2(x as u16)); ctx.steps(1);
            let want = place(k, (x as u16 & m) as i64).0;
            let got = abs::class(&read(&b)?)?;
            if x as u16 & !m == 0 { same("read as", &want, &got)? } else { same("read as", &want, &clear(&got, &want, m))? }
            Ok(fnv(&b)) }) });
    }
    // versions
    let base = enc::encode(&place(0, 0x21).0, &Default::default());
    let minors: Vec<u16> = vec![0, 1, 2, 3, 4, 44, 45, 255, 256, 32767, 32768, 65535];
    par(65536, |x| { for mi in &minors { ctx.case(|| format!("version {x}.{mi}"), || {
        let mut b = base.clone(); b[4..6].copy_from_slice(&u2(*mi)); b[6..8].copy_from_slice(&u2(x as u16)); ctx.steps(1);
        match read(&b) {
            Err(_) if (45..=59).contains(&x) => Err("supported version rejected".into()), Err(_) => Ok(0),
            Ok(_) if !(45..=59).contains(&x) => Err("unsupported version accepted".into()),
            Ok(c) => { let got = abs::class(&c)?; if (got.at(1), got.at(0)) != (&I(x as i64), &I(*mi as i64)) { return Err(format!("read as {:?}.{:?}", got.at(1), got.at(0))) } let w = write(&c)?; if w[..8] != b[..8] { return Err(format!("rewritten with header {}", hex(&w[..8]))) } same("parse", &got, &parse::parse_class(&w)?)?; Ok(fnv(&w)) }
        } }) } });
    par(65536, |x| for maj in 45..=59u16 { ctx.case(|| format!("version {maj}.{x}"), || {
        let mut b = base.clone(); b[4..6].copy_from_slice(&u2(x as u16)); b[6..8].copy_from_slice(&u2(maj)); ctx.steps(2);
        let c = read(&b)?; if c.version.minor != x as u16 || abs::MAJORS[maj as usize - 45] != c.version.major { return Err(format!("read as {:?}", c.version)) }
        let mut w = vec![]; ReadWrite::write_to(&c.version, &mut w).map_err(|e| e.to_string())?; if w != b[4..8] { return Err(format!("written as {}", hex(&w))) }
        Ok(fnv(&w)) }) });
    // magic
    let mut mg: Vec<[u8; 4]> = vec![]; let good = [0xCAu8, 0xFE, 0xBA, 0xBE];
    for i in 0..4 { for x in 0..=255u8 { let mut m = good; m[i] = x; mg.push(m); for j in 0..i { let mut n = m; n[j] = n[j].wrapping_add(1); mg.push(n); n[j] = 0; mg.push(n) } } }
    mg.extend([[0xBE, 0xBA, 0xFE, 0xCA], [0; 4], [0xFF; 4], [0xFE, 0xCA, 0xBE, 0xBA], [0xCA, 0xFE, 0xD0, 0x0D], *b"PK\x03\x04"]);
    for m in &mg { if *m == good { continue } ctx.case(|| format!("magic {}", hex(m)), || { let mut b = base.clone(); b[..4].copy_from_slice(m); ctx.steps(1); if read(&b).is_ok() { Err("accepted".into()) } else { Ok(0) } }) }
    ctx.case(|| "magic written".into(), || { let w = write(&conc::class(&place(0, 1).0))?; if w[..4] == good { Ok(1) } else { Err(hex(&w[..4])) } });
    ctx.finish("model_checking")
}
/// Clears undefined flag bits where the two trees differ in an integer.
fn clear(a: &V, b: &V, m: u16) -> V {
    match (a, b) {
        (I(x), I(y)) if x != y => I(x & m as i64),
        (L(x), L(y)) if x.len() == y.len() => L(x.iter().zip(y).map(|(p, q)| clear(p, q, m)).collect()),
        (N(n, x), N(k, y)) if n == k && x.len() == y.len() => N(n, x.iter().zip(y).map(|(p, q)| clear(p, q, m)).collect()),
        _ => a.clone(),
    }
}

// ---------------------------------------------------------------- C23
/// The documented rules; None where they leave it open.
fn handle_ok(kind: usize, name: &str, method: bool) -> Option<bool> {
    match kind {
        1..=4 => if !method { if name == "<init>" || name == "<clinit>" { None } else { Some(true) } } else { Some(false) },
        8 => Some(method && name == "<init>"),
        _ => Some(method && name != "<init>" && name != "<clinit>"),
    }
}
pub fn c23(ctx: &'static Ctx) -> i32 {
    ctx.rule("all nine kinds times names (constructor, initialiser and near misses) times descriptors times interface or not: check(), the direct reader and writer, and class files with the handle as a loaded constant, bootstrap method and bootstrap argument; all 256 kind bytes in every one of those places; distinct: hash of file or verdict");
    ctx.assume("field handles whose member is named <init> or <clinit> are not claimed");
    let names = ["m", "", "<init>", "<clinit>", "<init", "init>", "init", "<Init>", "<init>x", "x<init>", "<clinit", "<CLINIT>", "clinit", "<", ">", "<>", "日", "<init>\u{0}", "<cl\u{131}nit>"];
    let fd = ["I", "J", "Z", "B", "C", "S", "F", "D", "LA;", "[I", "[[LA;"]; let mdc = ["()V", "()I", "(I)V", "([LA;J)LA;", "()[I"];
    let w = |x: &str| conc::w(&x.encode_utf16().collect::<Vec<_>>());
    for k in 1..=9usize { for n in names { for (d, m) in fd.iter().map(|d| (*d, false)).chain(mdc.iter().map(|d| (*d, true))) { for itfs in [false, true] {
        let h = MethodHandle { kind: conc::KINDS[k - 1], member: MemberRef { owner: w("p/O"), name: w(n), descriptor: conc::ty(&s(d)), itfs } };
        let exp = handle_ok(k, n, m);
        ctx.state(hash_of(&(k, n, d, itfs)));
        ctx.case(|| format!("check kind {k} {n:?} {d} interface {itfs}"), || { ctx.steps(1); match (exp, h.check()) { (Some(true), Err(e)) => Err(format!("valid handle rejected: {e}")), (Some(false), Ok(())) => Err("invalid handle accepted".into()), (_, r) => Ok(r.is_ok() as u64 | (k as u64) << 1) } });
        // direct form: kind byte, member index
        ctx.case(|| format!("write kind {k} {n:?} {d} interface {itfs}"), || {
            let mut cp = VecCp::new(); let mut b = vec![]; ctx.steps(1);
            match (exp, ConstantPoolReadWrite::write_to(&h, &mut cp, &mut b)) { (Some(true), Err(e)) => return Err(format!("valid handle rejected: {e}")), (Some(false), Ok(())) => return Err("invalid handle written".into()), (_, Err(_)) => return Ok(0), _ => {} }
            if b.len() != 3 || b[0] as usize != k { return Err(format!("written as {}", hex(&b))) }
            let mut img = vec![]; ReadWrite::write_to(&cp, &mut img).map_err(|e| e.to_string())?;
            let mut r = Rd::new(&img); let p = parse::Pool::parse(&mut r)?;
            let mv = p.member(u16::from_be_bytes([b[1], b[2]]))?;
            same("member", &N(if !m { "field" } else if itfs { "imethod" } else { "method" }, vec![s("p/O"), s(n), s(d)]), &mv)?;
            let mut c: MapCp = ReadWrite::read_from(&mut &img[..]).map_err(|e| e.to_string())?;
            let back = MethodHandle::read_from(&mut c, &mut &b[..]).map_err(|e| format!("own bytes rejected: {e}"))?;
            if back.kind != h.kind || back.member.owner != h.member.owner || back.member.name != h.member.name || back.member.descriptor != h.member.descriptor || m && back.member.itfs != itfs { return Err(format!("read back as {back:?}")) }
            Ok(fnv(&b)) });
        // read the direct form built by hand
        let mut p = RawPool::new(); let mi = p.member(if !m { 9 } else if itfs { 11 } else { 10 }, "p/O", n, d); let img = p.bytes();
        ctx.case(|| format!("read kind {k} {n:?} {d} interface {itfs}"), || {
            let mut c: MapCp = ReadWrite::read_from(&mut &img[..]).map_err(|e| e.to_string())?; ctx.steps(1);
            let b = [k as u8, (mi >> 8) as u8, mi as u8];
            match (exp, MethodHandle::read_from(&mut c, &mut &b[..])) { (Some(true), Err(e)) => Err(format!("valid handle rejected: {e}")), (Some(false), Ok(_)) => Err("invalid handle read".into()), (_, Err(_)) => Ok(0), (_, Ok(r)) => if r.kind == h.kind && r.member.name == h.member.name && r.member.descriptor == h.member.descriptor && r.member.owner == h.member.owner && (!m || r.member.itfs == itfs) { Ok(1) } else { Err(format!("read as {r:?}")) } } });
        // valid handles in class files
        if exp == Some(true) && (!m || match k { 5 | 8 => !itfs, 9 => itfs, _ => true }) && !(itfs && !m) {
            let hv = N("mh", vec![I(k as i64), N(if !m { "field" } else if itfs { "imethod" } else { "method" }, vec![s("p/O"), s(n), s(d)])]);
            let dy = |h: V, a: Vec<V>| N("dyn", vec![s("n"), s("()V"), N("bsm", vec![h, L(a)])]);
            for (i, v) in [N("push", vec![hv.clone()]), N("indy", vec![dy(hv.clone(), vec![])]), N("indy", vec![dy(gen::bsm_handle(0), vec![hv.clone(), gen::bsm_handle(0), hv.clone()])])].into_iter().enumerate() {
                let v = gen::wrap_code(gen::code1(v));
                ctx.case(|| format!("class place {i} {hv:?}"), || { ctx.steps(2); let b = write(&conc::class(&v))?; same("the file says", &v, &parse::parse_class(&b)?)?; same("read back", &v, &abs::class(&read(&b)?)?)?; same("read from another encoding", &v, &abs::class(&read(&enc::encode(&v, &Default::default()))?)?)?; Ok(fnv(&b)) });
            }
        }
    } } } }
    // kind numbers
    for x in 0..=255u8 {
        ctx.case(|| format!("kind byte {x}"), || {
            ctx.steps(2);
            let want = (1..=9).contains(&x).then(|| conc::KINDS[x as usize - 1]);
            if MethodHandleKind::try_from(x).ok() != want { return Err(format!("TryFrom gives {:?}", MethodHandleKind::try_from(x))) }
            let r = <MethodHandleKind as ReadWrite>::read_from(&mut &[x][..]);
            if r.as_ref().ok() != want.as_ref() { return Err(format!("read as {r:?}")) }
            if let Some(k) = want { if k as u8 != x { return Err(format!("as u8 is {}", k as u8)) } let mut b = vec![]; ReadWrite::write_to(&k, &mut b).map_err(|e| e.to_string())?; if b != [x] { return Err(format!("written as {b:?}")) } }
            Ok(x as u64) });
        for (t, n, d) in [(9u8, "f", "I"), (10, "m", "()V"), (11, "m", "()V"), (10, "<init>", "()V")] {
            let fits = match (x, t) { (1..=4, 9) => true, (5, 10) => n == "m", (6 | 7, 10 | 11) => n == "m", (8, 10) => n == "<init>", (9, 11) => true, _ => false };
            let undefined = !(1..=9).contains(&x);
            // as a loaded constant, as a bootstrap method, as a bootstrap argument
            for place in 0..3 {
                let mut p = RawPool::new(); let m = p.member(t, "p/O", n, d); let h = p.mh(x, m);
                let ok = p.member(10, "B", "b", "()V"); let okh = p.mh(6, ok); let nt = p.nt("c", "()V"); let dy = if place > 0 { p.two(18, 0, nt) } else { 0 };
                let mut code = vec![];
                let mut bsm = vec![];
                match place { 0 => { code.push(19); code.extend(u2(h)) } _ => { code.push(186); code.extend(u2(dy)); code.extend([0, 0]); let mut b = u2(1).to_vec(); if place == 1 { b.extend(u2(h)); b.extend(u2(0)) } else { b.extend(u2(okh)); b.extend(u2(1)); b.extend(u2(h)) } bsm.push(("BootstrapMethods", b)) } }
                code.push(177);
                let f = raw::with_code(p, &code, &[], &[], &bsm);
                ctx.state(fnv(&f));
                ctx.case(|| format!("kind {x} with member tag {t} {n} in place {place}"), || { ctx.steps(1); match read(&f) {
                    Ok(_) if undefined => Err("undefined kind accepted".into()), Err(e) if fits => Err(format!("valid handle rejected: {e}")),
                    Ok(c) if fits => { same("read as", &parse::parse_class(&f)?, &abs::class(&c)?)?; Ok(fnv(&f)) } _ => Ok(0) } });
            }
        }
    }
    ctx.finish("model_checking")
}
