//! Bounded grammar of classes. Every function returns the complete list of variants within its bound.
use crate::v::*;

pub fn u(x: &[u16]) -> V { S(x.to_vec()) }
/// Strings: empty, ASCII, NUL, 2- and 3-byte, supplementary, lone high, lone low, reversed pair.
pub fn strings() -> Vec<V> {
    vec![s("a"), s(""), s("\0"), s("é"), s("日"), s("\u{10000}"), u(&[0xD800]), u(&[0xDC00]), u(&[0xDC00, 0xD800]), u(&[0x61, 0xDBFF, 0x62]), s("x/y$z"), u(&[0xDBFF, 0xDFFF, 0xD800]), s("\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}")]
}
pub fn class_names() -> Vec<V> { vec![s("A"), s("p/B"), s("I"), s("B"), s("Lx"), s("V"), u(&[0xD800]), s("日/é$1")] }
pub fn field_descs() -> Vec<V> {
    let mut v: Vec<V> = ["B", "C", "D", "F", "I", "J", "S", "Z", "LA;", "Lp/B;", "[I", "[[J", "[LA;", "[[[Z"].iter().map(|x| s(x)).collect();
    v.push(u(&['L' as u16, 0xD800, ';' as u16])); v.push(u(&['[' as u16, 'L' as u16, 0xDFFF, ';' as u16]));
    v.push(S({ let mut a = vec!['[' as u16; 255]; a.push('I' as u16); a }));
    v
}
pub fn method_descs() -> Vec<V> {
    let mut v: Vec<V> = ["()V", "()I", "(I)V", "(IJ)D", "([ILA;)[[B", "(LA;LA;)LA;"].iter().map(|x| s(x)).collect();
    v.push(u(&['(' as u16, 'L' as u16, 0xD800, ';' as u16, ')' as u16, 'V' as u16]));
    v
}
pub fn kint(x: i64) -> V { N("int", vec![I(x)]) }
pub fn num_consts() -> Vec<V> {
    let mut v = vec![];
    for x in [0i64, -1, 1, 2, 5, 6, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, i32::MAX as i64, i32::MIN as i64] { v.push(kint(x)) }
    for x in [0i64, 1, -1, 2, 5, i64::MAX, i64::MIN, i32::MAX as i64 + 1] { v.push(N("long", vec![I(x)])) }
    for x in [0u32, 0x8000_0000, 0x3f80_0000, 0x4000_0000, 0x4040_0000, 0xbf80_0000, 0x7f80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 0x7f80_0001, 1, 0x7f7f_ffff] { v.push(N("float", vec![I(x as i64)])) }
    for x in [0u64, 1 << 63, 0x3ff0 << 48, 0x4000 << 48, 0xbff0 << 48, 0x7ff0 << 48, 0x7ff8 << 48, (0x7ff8 << 48) | 1, 0xfff8 << 48, (0x7ff0 << 48) | 1, 1, 0x7fef_ffff_ffff_ffff] { v.push(N("double", vec![I(x as i64)])) }
    v
}
pub fn member(k: &'static str, o: &str, n: &str, d: &str) -> V { N(k, vec![s(o), s(n), s(d)]) }
pub fn mh(k: i64, m: V) -> V { N("mh", vec![I(k), m]) }
pub fn handles() -> Vec<V> {
    let f = || member("field", "A", "f", "I"); let m = || member("method", "A", "m", "()V"); let i = || member("imethod", "Itf", "m", "()V");
    vec![mh(1, f()), mh(2, f()), mh(3, f()), mh(4, f()), mh(5, m()), mh(6, m()), mh(6, i()), mh(7, m()), mh(7, i()), mh(8, member("method", "A", "<init>", "()V")), mh(9, i())]
}
pub fn ref_consts() -> Vec<V> {
    let mut v = vec![];
    for x in strings() { v.push(N("string", vec![x])) }
    for x in class_names() { v.push(N("cls", vec![x])) }
    v.push(N("cls", vec![s("[I")])); v.push(N("cls", vec![s("[[LA;")]));
    for x in method_descs() { v.push(N("mtype", vec![x])) }
    v.extend(handles());
    v
}
pub fn consts() -> Vec<V> { let mut v = num_consts(); v.extend(ref_consts()); v }
pub fn dynv(name: &str, d: &str, h: V, args: Vec<V>) -> V { N("dyn", vec![s(name), s(d), N("bsm", vec![h, L(args)])]) }
pub fn bsm_handle(k: u32) -> V { mh(6, member("method", "Boot", if k == 0 { "b0" } else if k == 1 { "b1" } else { "b2" }, "()V")) }
/// Dynamic constants: arguments of every kind, nested two deep, wide descriptors.
pub fn dyns() -> Vec<V> {
    let b = bsm_handle;
    let inner = dynv("in", "I", b(1), vec![kint(9)]);
    let inner2 = dynv("in2", "LA;", b(0), vec![inner.clone(), N("string", vec![s("q")])]);
    vec![
        dynv("d", "I", b(0), vec![]), dynv("d", "J", b(0), vec![]), dynv("d", "D", b(0), vec![N("double", vec![I(0)])]), dynv("d", "LA;", b(0), vec![N("string", vec![s("x")])]),
        dynv("e", "[I", b(1), vec![N("long", vec![I(5)]), N("cls", vec![s("A")]), N("mtype", vec![s("(I)V")]), mh(6, member("method", "A", "z", "()V"))]),
        dynv("n", "I", b(0), vec![inner.clone()]), dynv("n", "F", b(2), vec![inner2.clone(), inner.clone(), inner2.clone()]), dynv("in", "I", b(1), vec![kint(9)]),
    ]
}
pub fn indys() -> Vec<V> {
    let b = bsm_handle;
    let inner = dynv("in", "I", b(1), vec![kint(9)]);
    vec![dynv("i", "()V", b(0), vec![]), dynv("i", "(IJ)LA;", b(1), vec![kint(1), N("float", vec![I(0x7fc00001)])]), dynv("j", "()I", b(0), vec![inner.clone()]), dynv("k", "()V", b(1), vec![inner, dynv("w", "J", b(2), vec![])])]
}
pub fn opn(o: i64) -> V { N("op", vec![I(o)]) }
pub fn plain_ops() -> Vec<i64> { let mut v = vec![0, 1]; v.extend(46..=53); v.extend(79..=131); v.extend(133..=152); v.extend(172..=177); v.extend([190, 191, 194, 195]); v }
pub fn jumps() -> Vec<i64> { (153..=167).chain([198, 199]).collect() }
pub const IDX: [i64; 14] = [0, 1, 2, 3, 4, 5, 127, 128, 254, 255, 256, 257, 32768, 65535];
/// Every non-branching instruction at operand boundaries.
pub fn simple_insns() -> Vec<V> {
    let mut v: Vec<V> = plain_ops().into_iter().map(opn).collect();
    for c in consts() { v.push(N("push", vec![c])) }
    for d in dyns() { v.push(N("push", vec![d])) }
    for t in 0..5 { for i in IDX { v.push(N("load", vec![I(t), I(i)])); v.push(N("store", vec![I(t), I(i)])) } }
    for i in IDX { v.push(N("ret", vec![I(i)])); for x in [0i64, 1, -1, 127, 128, -128, -129, 32767, -32768] { v.push(N("iinc", vec![I(i), I(x)])) } }
    for o in 178..=181 { for d in field_descs() { v.push(N("ref", vec![I(o), N("field", vec![s("A"), s("f"), d])])) } for nm in strings() { v.push(N("ref", vec![I(o), N("field", vec![s("A"), nm, s("I")])])) } v.push(N("ref", vec![I(o), dyns()[3].clone()])) }
    for o in 182..=184 { for d in method_descs() { v.push(N("ref", vec![I(o), N("method", vec![s("A"), s("m"), d.clone()])])); if o != 182 { v.push(N("ref", vec![I(o), N("imethod", vec![s("A"), s("m"), d])])) } } v.push(N("ref", vec![I(o), member("method", "[I", "clone", "()LA;")])); v.push(N("ref", vec![I(o), dyns()[3].clone()])) }
    for c in [0, 1, 2, 255] { v.push(N("itf", vec![member("imethod", "T", "m", "(J)V"), I(c)])) }
    v.push(N("itf", vec![dyns()[3].clone(), I(1)]));
    for d in indys() { v.push(N("indy", vec![d])) }
    for nm in strings() {
        let b = |m: V| N("bsm", vec![mh(6, m), L(vec![])]);
        v.push(N("indy", vec![N("dyn", vec![nm.clone(), s("()V"), b(member("method", "Boot", "b0", "()V"))])]));
        v.push(N("push", vec![N("dyn", vec![nm.clone(), s("I"), b(N("method", vec![nm.clone(), nm.clone(), s("()V")]))])]));
        v.push(N("push", vec![mh(6, N("method", vec![nm.clone(), s("m"), s("()V")]))])); v.push(N("push", vec![mh(2, N("field", vec![s("A"), nm.clone(), s("I")]))]));
        v.push(N("ref", vec![I(182), N("method", vec![nm.clone(), s("m"), s("()V")])])); v.push(N("itf", vec![N("imethod", vec![nm.clone(), nm.clone(), s("()V")]), I(1)]));
        v.push(N("new", vec![nm.clone()]));
    }
    for c in class_names() { v.push(N("new", vec![c.clone()])); v.push(N("newarr", vec![crate::parse::elem_of_class(c.st()).unwrap()])); for o in [192, 193] { v.push(N("cast", vec![I(o), c.clone()])) } }
    v.push(N("new", vec![dyns()[3].clone()])); v.push(N("newarr", vec![dyns()[3].clone()])); v.push(N("cast", vec![I(192), dyns()[3].clone()])); v.push(N("cast", vec![I(193), dyns()[3].clone()])); v.push(N("multi", vec![dyns()[3].clone(), I(2)]));
    let long = S({ let mut a = vec!['[' as u16; 254]; a.push('I' as u16); a });
    let l255 = S({ let mut a = vec!['[' as u16; 255]; a.push('J' as u16); a });
    for a in ["[I", "[[LA;", "[LI;", "[LBall;", "[[[Z"] { for o in [192, 193] { v.push(N("cast", vec![I(o), s(a)])) } v.push(N("newarr", vec![s(a)])) }
    for p in ["Z", "C", "F", "D", "B", "S", "I", "J"] { v.push(N("newarr", vec![s(p)])) }
    v.push(N("newarr", vec![long.clone()])); v.push(N("cast", vec![I(192), l255.clone()]));
    for (a, d) in [("[[I", 2), ("[[[I", 2), ("[[[LA;", 3), ("[[LI;", 2)] { v.push(N("multi", vec![s(a), I(d)])) }
    for d in [2, 128, 255] { v.push(N("multi", vec![l255.clone(), I(d)])) }
    v
}
/// Code with given parts.
pub fn codev(ins: Vec<V>, hs: Vec<V>, lines: Vec<V>, lv: Vec<V>, lvt: Vec<V>, other: Vec<V>) -> V { N("code", vec![I(2), I(3), L(ins), L(hs), L(lines), L(lv), L(lvt), L(other)]) }
pub fn code1(i: V) -> V { codev(vec![i, opn(177)], vec![], vec![], vec![], vec![], vec![]) }
pub fn ret() -> V { opn(177) }
pub fn jmp(o: i64, t: i64) -> V { N("jmp", vec![I(o), I(t)]) }

pub fn ev(t: char, v: Vec<V>) -> V { let mut x = vec![I(t as i64)]; x.extend(v); N("ev", x) }
pub fn pair(n: &str, v: V) -> V { N("pair", vec![s(n), v]) }
pub fn ann(t: &str, p: Vec<V>) -> V { let mut p = p; p.sort(); N("ann", vec![s(t), L(p)]) }
/// Element values: each kind at its boundaries (depth 0).
pub fn leaf_elements() -> Vec<V> {
    let mut v = vec![];
    for x in [-128i64, -1, 0, 1, 127] { v.push(ev('B', vec![I(x)])) }
    for x in [0i64, 65, 0xD800, 0xDFFF, 65535] { v.push(ev('C', vec![I(x)])) }
    for x in [-32768i64, -1, 0, 32767] { v.push(ev('S', vec![I(x)])) }
    for x in [0i64, 1] { v.push(ev('Z', vec![I(x)])) }
    for c in num_consts() { let t = match c.name() { "int" => 'I', "long" => 'J', "float" => 'F', _ => 'D' }; v.push(ev(t, vec![c.at(0).clone()])) }
    for x in strings() { v.push(ev('s', vec![x])) }
    for d in field_descs() { v.push(ev('c', vec![d.clone()])); v.push(ev('e', vec![d, s("V")])) }
    for x in strings() { v.push(ev('e', vec![s("LE;"), x])) }
    v.push(ev('c', vec![s("V")]));
    v
}
pub fn small_elements() -> Vec<V> { vec![ev('B', vec![I(-128)]), ev('C', vec![I(65535)]), ev('D', vec![I(0x7ff8000000000001)]), ev('F', vec![I(0x80000000)]), ev('I', vec![I(7)]), ev('J', vec![I(-9)]), ev('S', vec![I(-32768)]), ev('Z', vec![I(1)]), ev('s', vec![s("st")]), ev('e', vec![s("LE;"), s("X")]), ev('c', vec![s("[I")]), ev('c', vec![s("V")])] }
/// Elements nested `d` levels deep: arrays of 0..=2 elements and annotations of 0..=2 pairs over the level below.
pub fn elements(d: u32) -> Vec<V> {
    if d == 0 { return small_elements() }
    let sub = elements(d - 1);
    let mut v = sub.clone();
    v.push(ev('[', vec![L(vec![])])); v.push(ev('@', vec![ann("LN;", vec![])]));
    for a in &sub { v.push(ev('[', vec![L(vec![a.clone()])])); v.push(ev('@', vec![ann("LN;", vec![pair("k", a.clone())])])) }
    if d == 1 { for a in &sub { for b in &sub { v.push(ev('[', vec![L(vec![a.clone(), b.clone()])])); v.push(ev('@', vec![ann("LN;", vec![pair("k", a.clone()), pair("l", b.clone())])])) } } }
    v
}
pub fn anns() -> Vec<V> {
    vec![ann("LAnn;", vec![]), ann("LAnn;", vec![pair("v", ev('I', vec![I(1)]))]), ann("LB;", vec![pair("a", ev('s', vec![s("x")])), pair("b", ev('[', vec![L(vec![ev('Z', vec![I(1)]), ev('@', vec![ann("LC;", vec![pair("z", ev('D', vec![I(0)]))])])])]))])]
}
pub fn targets(loc: char) -> Vec<Vec<i64>> {
    match loc {
        'c' => { let mut v = vec![]; for x in [0, 1, 255] { v.push(vec![0, x]); for y in [0, 255] { v.push(vec![0x11, x, y]) } } for x in [0, 1, 255, 256, 65535] { v.push(vec![0x10, x]) } v }
        'f' => vec![vec![0x13]],
        _ => { let mut v = vec![vec![0x14], vec![0x15]]; for x in [0, 1, 255] { v.push(vec![1, x]); v.push(vec![0x16, x]); for y in [0, 255] { v.push(vec![0x12, x, y]) } } for x in [0, 1, 256, 65535] { v.push(vec![0x17, x]) } v }
    }
}
pub fn paths() -> Vec<V> {
    let mut v = vec![L(vec![])];
    for k in 0..4 { for a in [0, 1, 255] { v.push(L(vec![L(vec![I(k), I(a)])])) } }
    v.push(L(vec![L(vec![I(0), I(0)]), L(vec![I(1), I(0)]), L(vec![I(2), I(0)]), L(vec![I(3), I(7)])]));
    v
}
pub fn tann(t: Vec<V>, path: V, ty: &str, pairs: Vec<V>) -> V { let mut p = pairs; p.sort(); N("tann", vec![N("tgt", t), path, s(ty), L(p)]) }
fn ints(x: &[i64]) -> Vec<V> { x.iter().map(|i| I(*i)).collect() }
pub fn tanns(loc: char) -> Vec<V> {
    let mut v = vec![];
    for t in targets(loc) { v.push(tann(ints(&t), L(vec![]), "LT;", vec![])) }
    for p in paths() { v.push(tann(ints(&targets(loc)[0]), p, "LT;", vec![pair("q", ev('I', vec![I(3)]))])) }
    v
}
pub fn raws() -> Vec<V> {
    let r = |n: V, b: Vec<u8>| N("raw", vec![n, B(b)]);
    vec![r(s("X"), vec![]), r(s("Custom"), vec![0]), r(s("Y"), (0..=255).collect()), r(s("日é"), vec![1, 2]), r(u(&[0xD800]), vec![0xff; 3]), r(s(""), vec![7]), r(s("code"), vec![0, 1]), r(s("SourceFil"), vec![0, 1])]
}
fn common(ann_loc: char, sigs: &[&str]) -> Vec<V> {
    let mut v = vec![N("Synthetic", vec![]), N("Deprecated", vec![])];
    for x in sigs { v.push(N("Signature", vec![s(x)])) }
    for n in ["RVA", "RIA"] { v.push(N(n, vec![L(vec![])])); for a in anns() { v.push(N(n, vec![L(vec![a])])) } v.push(N(n, vec![L(anns())])) }
    for n in ["RVTA", "RITA"] { let t = tanns(ann_loc); v.push(N(n, vec![L(vec![])])); v.push(N(n, vec![L(vec![t[0].clone()])])); v.push(N(n, vec![L(t)])) }
    v.extend(raws());
    v
}
pub fn class_attrs() -> Vec<V> {
    let mut v = common('c', &["LA;", "<T:LObj;U::LI;:LJ;>Lp/A<TT;*+LB;>.C;LI<[I>;"]);
    for x in [s("A.java"), s(""), u(&[0xD800])] { v.push(N("SourceFile", vec![x])) }
    let ic = |o: V, n: V, f: i64| N("ic", vec![s("A$B"), o, n, I(f)]);
    v.push(N("InnerClasses", vec![L(vec![])]));
    for o in [none(), s("A")] { for n in [none(), s("B")] { v.push(N("InnerClasses", vec![L(vec![ic(o.clone(), n, 0x760f & 0x761f)])])) } }
    v.push(N("InnerClasses", vec![L(vec![ic(s("A"), s("B"), 1), ic(none(), none(), 0x4000)])]));
    v.push(N("EnclosingMethod", vec![s("A"), none()]));
    for d in method_descs() { v.push(N("EnclosingMethod", vec![s("A"), N("nt", vec![s("m"), d])])) }
    for x in strings() { v.push(N("SourceDebugExtension", vec![x])) }
    let md = |ver: V, r: Vec<V>, e: Vec<V>, o: Vec<V>, us: Vec<V>, p: Vec<V>| N("Module", vec![s("m.o"), I(0x9020), ver, L(r), L(e), L(o), L(us), L(p)]);
    v.push(md(none(), vec![], vec![], vec![], vec![], vec![]));
    v.push(md(s("1"), vec![N("req", vec![s("java.base"), I(0x8060), none()])], vec![], vec![], vec![], vec![]));
    v.push(md(none(), vec![N("req", vec![s("a"), I(0x20), s("9")]), N("req", vec![s("b"), I(0x1040), none()])], vec![N("exp", vec![s("p/q"), I(0x8000), L(vec![])]), N("exp", vec![s("p"), I(0x1000), L(vec![s("a"), s("b")])])], vec![], vec![], vec![]));
    v.push(md(s("2"), vec![], vec![], vec![N("open", vec![s("p"), I(0x9000), L(vec![s("x")])]), N("open", vec![s("r"), I(0), L(vec![])])], vec![s("U"), s("W")], vec![N("prov", vec![s("P"), L(vec![s("Q"), s("R")])]), N("prov", vec![s("P2"), L(vec![])])]));
    for x in [vec![], vec![s("p")], vec![s("p/q"), s("r")]] { v.push(N("ModulePackages", vec![L(x.clone())])); v.push(N("NestMembers", vec![L(x)])) }
    v.push(N("ModuleMainClass", vec![s("Main")])); v.push(N("NestHost", vec![s("A")]));
    v
}
pub fn field_attrs() -> Vec<V> {
    let mut v = common('f', &["TT;", "[LA<*>;"]);
    for c in num_consts() { v.push(N("ConstantValue", vec![c])) }
    for x in strings() { v.push(N("ConstantValue", vec![N("string", vec![x])])) }
    v
}
pub fn method_attrs() -> Vec<V> {
    let mut v = common('m', &["()V", "<T:>(TT;[I)LA;^LE;^TT;"]);
    for n in ["RVPA", "RIPA"] { v.push(N(n, vec![L(vec![])])); v.push(N(n, vec![L(vec![L(vec![]), L(anns()), L(vec![])])])) }
    for x in [vec![], vec![s("E")], vec![s("E"), s("p/F")]] { v.push(N("Exceptions", vec![L(x)])) }
    for e in elements(0) { v.push(N("AnnotationDefault", vec![e])) }
    v.push(N("AnnotationDefault", vec![ev('[', vec![L(vec![])])])); v.push(N("AnnotationDefault", vec![ev('@', vec![anns()[2].clone()])]));
    let mp = |n: V, f: i64| N("mp", vec![n, I(f)]);
    v.push(N("MethodParameters", vec![L(vec![])])); v.push(N("MethodParameters", vec![L(vec![mp(none(), 0x9010), mp(s("x"), 0), mp(u(&[0xDC00]), 0x10)])]));
    v.extend(codes());
    v
}
/// A few complete method bodies, each using one more feature.
pub fn codes() -> Vec<V> {
    let lv = |a: i64, b: i64, n: &str, d: &str, i: i64| L(vec![I(a), I(b), s(n), s(d), I(i)]);
    let ln = |a: i64, l: i64| L(vec![I(a), I(l)]);
    let h = |a: i64, b: i64, c: i64, t: V| N("h", vec![I(a), I(b), I(c), t]);
    let mut v = vec![code1(opn(0))];
    v.push(codev(vec![opn(3 - 3), jmp(153, 3), opn(0), ret()], vec![], vec![], vec![], vec![], vec![]));
    v.push(codev(vec![opn(0), opn(87), opn(0), ret()], vec![h(0, 1, 2, s("E")), h(0, 3, 3, none())], vec![ln(0, 1), ln(2, 65535)], vec![], vec![], vec![]));
    v.push(codev(vec![opn(0), opn(0), ret()], vec![], vec![ln(0, 7), ln(0, 8), ln(1, 7)], vec![lv(0, 3, "this", "LA;", 0), lv(1, 2, "x", "I", 1)], vec![lv(0, 3, "this", "LA<TT;>;", 0), lv(2, 3, "y", "[TT;", 2)], vec![raws()[1].clone()]));
    v.push(codev(vec![N("tsw", vec![I(0), I(-1), L(vec![I(1), I(2)])]), opn(0), ret()], vec![], vec![], vec![], vec![], vec![]));
    v.push(codev(vec![opn(0), N("lsw", vec![I(2), L(vec![L(vec![I(-5), I(0)]), L(vec![I(70000), I(3)])])]), opn(0), ret()], vec![], vec![], vec![], vec![], vec![]));
    let hh = h(0, 1, 2, s("E"));
    v.push(codev(vec![opn(0), opn(0), ret()], vec![hh.clone()], vec![], vec![], vec![], vec![
        N("RVTA", vec![L(vec![tann(vec![I(0x40), L(vec![L(vec![I(0), I(3), I(1)]), L(vec![I(1), I(2), I(9)])])], L(vec![]), "LT;", vec![]), tann(vec![I(0x42), hh.clone()], L(vec![]), "LT;", vec![])])]), raws()[0].clone(),
        N("RITA", vec![L(vec![tann(vec![I(0x43), I(1)], L(vec![]), "LT;", vec![]), tann(vec![I(0x47), I(2), I(255)], paths()[3].clone(), "LT;", vec![pair("q", ev('Z', vec![I(0)]))])])])]));
    v.push(codev(vec![N("push", vec![dyns()[5].clone()]), N("indy", vec![indys()[2].clone()]), N("push", vec![dyns()[6].clone()]), ret()], vec![], vec![], vec![], vec![], vec![]));
    v.push(codev(vec![N("jsr", vec![I(2)]), jmp(167, 0), N("ret", vec![I(300)]), ret()], vec![], vec![ln(1, 0)], vec![], vec![], vec![]));
    v
}
pub fn field(f: i64, n: V, d: V, a: Vec<V>) -> V { N("member", vec![I(f), n, d, L(a)]) }
pub fn classv(major: i64, flags: i64, name: V, sup: V, ifs: Vec<V>, fs: Vec<V>, ms: Vec<V>, at: Vec<V>) -> V { N("class", vec![I(0), I(major), I(flags), name, sup, L(ifs), L(fs), L(ms), L(at)]) }
pub fn wrap_class(at: Vec<V>) -> V { classv(55, 0x21, s("A"), s("java/lang/Object"), vec![], vec![], vec![], at) }
pub fn wrap_field(at: Vec<V>) -> V { classv(55, 0x21, s("A"), s("java/lang/Object"), vec![], vec![field(1, s("f"), s("I"), at)], vec![], vec![]) }
pub fn wrap_method(at: Vec<V>) -> V { classv(55, 0x21, s("A"), s("java/lang/Object"), vec![], vec![], vec![field(1, s("m"), s("()V"), at)], vec![]) }
pub fn wrap_code(c: V) -> V { wrap_method(vec![c]) }
/// Class skeletons: names, supertypes, interfaces, member lists.
pub fn skeletons() -> Vec<V> {
    let mut v = vec![];
    for n in class_names().into_iter().chain(strings()) { v.push(classv(52, 0x21, n.clone(), s("O"), vec![], vec![], vec![], vec![])); v.push(classv(52, 0, s("A"), n.clone(), vec![n.clone()], vec![], vec![], vec![])) }
    v.push(classv(45, 0x20, s("java/lang/Object"), none(), vec![], vec![], vec![], vec![]));
    for k in 0..4 { v.push(classv(59, 0x601, s("A"), s("O"), (0..k).map(|i| s(&format!("I{i}"))).collect(), vec![], vec![], vec![])) }
    for d in field_descs() { for n in [s("f"), u(&[0xD800])] { v.push(classv(52, 1, s("A"), s("O"), vec![], vec![field(2, n.clone(), d.clone(), vec![])], vec![], vec![])) } }
    for d in method_descs() { for n in [s("m"), s("<init>"), u(&[0xDC00])] { v.push(classv(52, 1, s("A"), s("O"), vec![], vec![], vec![field(9, n.clone(), d.clone(), vec![])], vec![])) } }
    for nf in 0..4 { for nm in 0..4 { v.push(classv(52, 1, s("A"), s("O"), vec![s("J")], (0..nf).map(|i| field(1 << i, s(&format!("f{i}")), s("J"), if i == 1 { vec![N("Synthetic", vec![])] } else { vec![] })).collect(), (0..nm).map(|i| field(1 << i, s(&format!("m{i}")), s("()V"), if i == 2 { vec![code1(opn(0))] } else { vec![] })).collect(), vec![])) } }
    v
}
/// A class that uses every feature at once.
pub fn everything() -> V {
    let one = |v: Vec<V>, names: &[&str]| -> Vec<V> { let mut o: Vec<V> = vec![]; for n in names { o.push(v.iter().filter(|x| x.name() == *n).last().unwrap().clone()) } o };
    let ca = one(class_attrs(), &["Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RVA", "RIA", "RVTA", "RITA", "raw"]);
    let fa = one(field_attrs(), &["Signature", "ConstantValue", "RVA", "RIA", "RVTA", "RITA", "raw"]);
    let ma = one(method_attrs(), &["Signature", "RVA", "RIA", "RVTA", "RITA", "RVPA", "RIPA", "Exceptions", "AnnotationDefault", "MethodParameters", "raw"]);
    let mut ms: Vec<V> = codes().into_iter().enumerate().map(|(i, c)| field(9, s(&format!("m{i}")), s("()V"), vec![c])).collect();
    ms.push(field(1, s("all"), s("()V"), ma));
    ms.push(field(1, s("ins"), s("()V"), vec![codev(simple_insns().into_iter().chain([ret()]).collect(), vec![], vec![], vec![], vec![], vec![])]));
    classv(55, 0x21, s("A"), s("O"), vec![s("I1"), s("I2")], vec![field(0x19, s("f"), s("I"), fa), field(2, s("g"), s("[J"), vec![])], ms, ca)
}
