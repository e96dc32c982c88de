//! Families of classes that grow one list or one component at a time: every list of the format over all short words of look-alike items and over
//! sizes around every power of two, every string at every length class, constant pools and bodies of every size class.
use crate::gen::*;
use crate::v::*;

/// One kind of list: look-alike items (each differs from the first in one component), the i-th of many items, the class around a list, greatest length.
pub struct Kind { pub name: &'static str, pub items: Vec<V>, pub many: fn(usize) -> V, pub wrap: fn(Vec<V>) -> V, pub max: usize, /// items are keys: a word may not repeat one
    pub unique: bool }
fn nm(p: &str, i: usize) -> V { s(&format!("{p}{}", i % 9000)) }
fn ints(x: &[i64]) -> Vec<V> { x.iter().map(|i| I(*i)).collect() }
fn sv(x: &[&str]) -> Vec<V> { x.iter().map(|y| s(y)).collect() }
fn nops(n: usize) -> Vec<V> { let mut v = vec![opn(0); n]; v.push(ret()); v }
fn body(hs: Vec<V>, ln: Vec<V>, lv: Vec<V>, lvt: Vec<V>, other: Vec<V>) -> V { wrap_code(codev(nops(4), hs, ln, lv, lvt, other)) }
fn module(k: usize, x: Vec<V>) -> V { let mut l: Vec<V> = (0..5).map(|_| L(vec![])).collect(); l[k] = L(x); let mut v = vec![s("m"), I(0), none()]; v.extend(l); wrap_class(vec![N("Module", v)]) }
fn h4(a: i64, b: i64, c: i64, t: V) -> V { N("h", vec![I(a), I(b), I(c), t]) }
fn lv5(a: i64, b: i64, n: &str, d: &str, i: i64) -> V { L(vec![I(a), I(b), s(n), s(d), I(i)]) }
fn tn(t: &[i64]) -> V { tann(ints(t), L(vec![]), "LT;", vec![]) }
fn raw(n: &str, b: &[u8]) -> V { N("raw", vec![s(n), B(b.to_vec())]) }
fn ann1(t: &str, n: &str, v: i64) -> V { ann(t, vec![pair(n, ev('I', vec![I(v)]))]) }
pub fn kinds() -> Vec<Kind> {
    let mut k: Vec<Kind> = vec![];
    let mut add = |name, items: Vec<V>, many, wrap, max, unique| k.push(Kind { name, items, many, wrap, max, unique });
    add("interfaces", sv(&["I", "", "J", "p/I"]), |i| nm("I", i), |x| classv(52, 1, s("A"), s("O"), x, vec![], vec![], vec![]), 65535, false);
    let mem = |f, n: &str, d: &str, a| field(f, s(n), s(d), a);
    add("fields", vec![mem(1, "f", "I", vec![]), mem(2, "f", "I", vec![]), mem(1, "g", "I", vec![]), mem(1, "f", "J", vec![]), mem(1, "f", "I", vec![N("Synthetic", vec![])])], |i| field((i % 3) as i64, nm("f", i), s("I"), vec![]), |x| classv(52, 1, s("A"), s("O"), vec![], x, vec![], vec![]), 65535, false);
    add("methods", vec![mem(1, "f", "()V", vec![]), mem(2, "f", "()V", vec![]), mem(1, "g", "()V", vec![]), mem(1, "f", "()I", vec![]), mem(1, "f", "()V", vec![code1(opn(0))])], |i| field((i % 3) as i64, nm("m", i), s("()V"), vec![]), |x| classv(52, 1, s("A"), s("O"), vec![], vec![], x, vec![]), 65535, false);
    let at = || vec![raw("X", &[1]), raw("Y", &[1]), raw("X", &[]), raw("X", &[2]), raw("X", &[1, 1]), N("Synthetic", vec![]), N("Deprecated", vec![])];
    let ra = |i: usize| N("raw", vec![nm("R", i), B(vec![i as u8])]);
    add("class attributes", at(), ra, wrap_class, 65535, false);
    add("field attributes", at(), ra, wrap_field, 65535, false);
    add("method attributes", at(), ra, wrap_method, 65535, false);
    add("code attributes", at()[..5].to_vec(), ra, |x| body(vec![], vec![], vec![], vec![], x), 65535, false);
    let an = || vec![ann1("LA;", "v", 1), ann1("LB;", "v", 1), ann1("LA;", "w", 1), ann1("LA;", "v", 2), ann("LA;", vec![])];
    let am = |i: usize| ann1("LA;", "v", (i % 9000) as i64);
    add("visible class annotations", an(), am, |x| wrap_class(vec![N("RVA", vec![L(x)])]), 65535, false);
    add("invisible class annotations", an(), am, |x| wrap_class(vec![N("RIA", vec![L(x)])]), 65535, false);
    add("visible field annotations", an(), am, |x| wrap_field(vec![N("RVA", vec![L(x)])]), 65535, false);
    add("invisible field annotations", an(), am, |x| wrap_field(vec![N("RIA", vec![L(x)])]), 65535, false);
    add("visible method annotations", an(), am, |x| wrap_method(vec![N("RVA", vec![L(x)])]), 65535, false);
    add("invisible method annotations", an(), am, |x| wrap_method(vec![N("RIA", vec![L(x)])]), 65535, false);
    let pa = || vec![L(vec![]), L(vec![ann1("LA;", "v", 1)]), L(vec![ann1("LA;", "v", 2)]), L(vec![ann1("LA;", "v", 1), ann1("LA;", "v", 2)])];
    add("visible parameters", pa(), |i| L(vec![ann1("LA;", "v", i as i64)]), |x| wrap_method(vec![N("RVPA", vec![L(x)])]), 255, false);
    add("invisible parameters", pa(), |i| L(vec![ann1("LA;", "v", i as i64)]), |x| wrap_method(vec![N("RIPA", vec![L(x)])]), 255, false);
    add("one parameter's annotations", an(), am, |x| wrap_method(vec![N("RVPA", vec![L(vec![L(vec![]), L(x), L(vec![])])])]), 65535, false);
    let tc = || vec![tn(&[0x10, 1]), tn(&[0x10, 2]), tn(&[0, 1]), tn(&[0x11, 1, 0]), tann(ints(&[0x10, 1]), paths()[1].clone(), "LT;", vec![]), tann(ints(&[0x10, 1]), L(vec![]), "LU;", vec![]), tann(ints(&[0x10, 1]), L(vec![]), "LT;", vec![pair("a", ev('I', vec![I(1)]))])];
    let tm = || vec![tn(&[0x17, 1]), tn(&[0x17, 2]), tn(&[1, 1]), tn(&[0x14]), tn(&[0x15]), tn(&[0x16, 1]), tn(&[0x12, 1, 0])];
    let tcm = |i: usize| tn(&[0x10, i as i64]); let tmm = |i: usize| tn(&[0x17, i as i64]);
    add("visible class type annotations", tc(), tcm, |x| wrap_class(vec![N("RVTA", vec![L(x)])]), 65535, false);
    add("invisible class type annotations", tc(), tcm, |x| wrap_class(vec![N("RITA", vec![L(x)])]), 65535, false);
    add("visible method type annotations", tm(), tmm, |x| wrap_method(vec![N("RVTA", vec![L(x)])]), 65535, false);
    add("invisible method type annotations", tm(), tmm, |x| wrap_method(vec![N("RITA", vec![L(x)])]), 65535, false);
    let tf = || vec![tn(&[0x13]), tann(ints(&[0x13]), paths()[1].clone(), "LT;", vec![]), tann(ints(&[0x13]), L(vec![]), "LU;", vec![])];
    add("visible field type annotations", tf(), |i| tann(ints(&[0x13]), L(vec![]), &format!("LT{};", i % 9000), vec![]), |x| wrap_field(vec![N("RVTA", vec![L(x)])]), 65535, false);
    add("invisible field type annotations", tf(), |i| tann(ints(&[0x13]), L(vec![]), &format!("LT{};", i % 9000), vec![]), |x| wrap_field(vec![N("RITA", vec![L(x)])]), 65535, false);
    let tk = || vec![tn(&[0x43, 1]), tn(&[0x43, 2]), tn(&[0x44, 1]), tn(&[0x45, 1]), tn(&[0x46, 1]), tn(&[0x47, 1, 0]), tn(&[0x4B, 1, 1]), tn(&[0x48, 3, 0]), tn(&[0x49, 0, 255]), tn(&[0x4A, 1, 0])];
    add("visible code type annotations", tk(), |i| tn(&[0x47, (i % 4) as i64, (i % 256) as i64]), |x| body(vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(x)])]), 65535, false);
    add("invisible code type annotations", tk(), |i| tn(&[0x47, (i % 4) as i64, (i % 256) as i64]), |x| body(vec![], vec![], vec![], vec![], vec![N("RITA", vec![L(x)])]), 65535, false);
    let lt = |a: i64, b: i64, c: i64| L(ints(&[a, b, c]));
    add("annotated variable ranges", vec![lt(0, 2, 1), lt(1, 2, 1), lt(0, 3, 1), lt(0, 2, 2), lt(2, 2, 1), lt(0, 5, 1)], |i| L(ints(&[0, 5, i as i64])), |x| body(vec![], vec![], vec![], vec![], vec![N("RVTA", vec![L(vec![tann(vec![I(0x40), L(x)], L(vec![]), "LT;", vec![])])])]), 65535, false);
    add("annotated resource ranges", vec![lt(0, 2, 1), lt(1, 2, 1), lt(0, 3, 1), lt(0, 2, 2)], |i| L(ints(&[0, 5, i as i64])), |x| body(vec![], vec![], vec![], vec![], vec![N("RITA", vec![L(vec![tann(vec![I(0x41), L(x)], L(vec![]), "LT;", vec![])])])]), 65535, false);
    let pp = |a: i64, b: i64| L(ints(&[a, b]));
    add("type path", vec![pp(0, 0), pp(1, 0), pp(2, 0), pp(3, 0), pp(3, 1), pp(3, 255)], |i| L(ints(&[3, (i % 256) as i64])), |x| wrap_class(vec![N("RVTA", vec![L(vec![tann(ints(&[0, 0]), L(x), "LT;", vec![])])])]), 255, false);
    add("array elements", vec![ev('I', vec![I(1)]), ev('I', vec![I(2)]), ev('B', vec![I(1)]), ev('Z', vec![I(1)]), ev('s', vec![s("1")]), ev('c', vec![s("I")]), ev('e', vec![s("I"), s("1")]), ev('[', vec![L(vec![])]), ev('@', vec![ann("LI;", vec![])])], |i| ev('I', vec![I((i % 9000) as i64)]), |x| wrap_method(vec![N("AnnotationDefault", vec![ev('[', vec![L(x)])])]), 65535, false);
    add("annotation pairs", vec![pair("a", ev('I', vec![I(1)])), pair("", ev('I', vec![I(1)])), pair("b", ev('I', vec![I(1)])), pair("c", ev('B', vec![I(1)])), pair("aa", ev('[', vec![L(vec![])]))], |i| pair(&format!("k{i:05}"), ev('I', vec![I(0)])), |x| wrap_class(vec![N("RVA", vec![L(vec![{ let mut x = x; x.sort(); N("ann", vec![s("LA;"), L(x)]) }])])]), 20000, true);
    add("type annotation pairs", vec![pair("a", ev('I', vec![I(1)])), pair("", ev('I', vec![I(1)])), pair("b", ev('I', vec![I(1)])), pair("c", ev('B', vec![I(1)]))], |i| pair(&format!("k{i:05}"), ev('I', vec![I(0)])), |x| wrap_field(vec![N("RITA", vec![L(vec![tann(ints(&[0x13]), L(vec![]), "LT;", x)])])]), 20000, true);
    let ic = |a: &str, o: V, n: V, f: i64| N("ic", vec![s(a), o, n, I(f)]);
    add("inner classes", vec![ic("A$B", s("A"), s("B"), 1), ic("A$C", s("A"), s("B"), 1), ic("A$B", none(), s("B"), 1), ic("A$B", s("C"), s("B"), 1), ic("A$B", s(""), s("B"), 1), ic("A$B", s("A"), none(), 1), ic("A$B", s("A"), s(""), 1), ic("A$B", s("A"), s("C"), 1), ic("A$B", s("A"), s("B"), 2)], |i| N("ic", vec![nm("A", i), none(), none(), I(1)]), |x| wrap_class(vec![N("InnerClasses", vec![L(x)])]), 65535, false);
    let rq = |a: &str, f: i64, v: V| N("req", vec![s(a), I(f), v]);
    add("requires", vec![rq("a", 0, none()), rq("b", 0, none()), rq("a", 0x20, none()), rq("a", 0, s("")), rq("a", 0, s("1"))], |i| N("req", vec![nm("r", i), I(0), none()]), |x| module(0, x), 65535, false);
    let ex = |n, a: &str, f: i64, t: &[&str]| N(n, vec![s(a), I(f), L(sv(t))]);
    add("exports", vec![ex("exp", "a", 0, &[]), ex("exp", "b", 0, &[]), ex("exp", "a", 0x1000, &[]), ex("exp", "a", 0, &["x"]), ex("exp", "a", 0, &["x", "y"]), ex("exp", "a", 0, &[""])], |i| N("exp", vec![nm("e", i), I(0), L(vec![])]), |x| module(1, x), 65535, false);
    add("opens", vec![ex("open", "a", 0, &[]), ex("open", "b", 0, &[]), ex("open", "a", 0x1000, &[]), ex("open", "a", 0, &["x"]), ex("open", "a", 0, &["x", "y"]), ex("open", "a", 0, &[""])], |i| N("open", vec![nm("e", i), I(0), L(vec![])]), |x| module(2, x), 65535, false);
    add("exports to", sv(&["x", "", "y", "x.y"]), |i| nm("e", i), |x| module(1, vec![N("exp", vec![s("p"), I(0), L(x)])]), 65535, false);
    add("opens to", sv(&["x", "", "y", "x.y"]), |i| nm("e", i), |x| module(2, vec![N("open", vec![s("p"), I(0), L(x)])]), 65535, false);
    add("uses", sv(&["x", "", "y", "x/y"]), |i| nm("e", i), |x| module(3, x), 65535, false);
    let pv = |a: &str, t: &[&str]| N("prov", vec![s(a), L(sv(t))]);
    add("provides", vec![pv("a", &[]), pv("b", &[]), pv("a", &["x"]), pv("a", &["x", "y"]), pv("a", &["y"])], |i| N("prov", vec![nm("e", i), L(vec![])]), |x| module(4, x), 65535, false);
    add("provides with", sv(&["x", "", "y", "x/y"]), |i| nm("e", i), |x| module(4, vec![N("prov", vec![s("p"), L(x)])]), 65535, false);
    add("module packages", sv(&["x", "", "y", "x/y"]), |i| nm("e", i), |x| wrap_class(vec![N("ModulePackages", vec![L(x)])]), 65535, false);
    add("nest members", sv(&["x", "", "y", "x/y"]), |i| nm("e", i), |x| wrap_class(vec![N("NestMembers", vec![L(x)])]), 65535, false);
    add("exceptions", sv(&["x", "", "y", "x/y"]), |i| nm("e", i), |x| wrap_method(vec![N("Exceptions", vec![L(x)])]), 65535, false);
    let mp = |n: V, f: i64| N("mp", vec![n, I(f)]);
    add("method parameters", vec![mp(s("x"), 0), mp(none(), 0), mp(s(""), 0), mp(s("y"), 0), mp(s("x"), 0x10), mp(s("x"), 0x1000), mp(s("x"), 0x8000)], |i| N("mp", vec![nm("p", i), I(0x10)]), |x| wrap_method(vec![N("MethodParameters", vec![L(x)])]), 255, false);
    add("handlers", vec![h4(0, 2, 3, none()), h4(1, 2, 3, none()), h4(0, 3, 3, none()), h4(0, 2, 4, none()), h4(0, 2, 3, s("E")), h4(0, 2, 3, s("")), h4(0, 5, 3, s("F"))], |i| N("h", vec![I(0), I(1 + (i % 5) as i64), I((i % 5) as i64), if i % 3 == 0 { none() } else { nm("E", i) }]), |x| body(x, vec![], vec![], vec![], vec![]), 65535, false);
    let ln = |a: i64, b: i64| L(ints(&[a, b]));
    add("line numbers", vec![ln(1, 1), ln(1, 2), ln(1, 0), ln(1, 65535), ln(2, 1), ln(4, 1), ln(0, 1)], |i| L(ints(&[0, i as i64])), |x| { let mut x = x; x.sort_by_key(|y| y.at(0).i()); body(vec![], x, vec![], vec![], vec![]) }, 65535, false);
    let lvs = |d: &str| vec![lv5(0, 2, "x", d, 1), lv5(1, 2, "x", d, 1), lv5(0, 3, "x", d, 1), lv5(0, 2, "y", d, 1), lv5(0, 2, "", d, 1), lv5(0, 2, "x", d, 2), lv5(0, 5, "x", d, 1), lv5(2, 2, "x", d, 1)];
    add("variables", lvs("I"), |i| lv5(0, 5, "x", "I", i as i64), |x| body(vec![], vec![], { let mut x = x; sort_vars(&mut x); x }, vec![], vec![]), 65535, true);
    add("generic variables", lvs("TT;"), |i| lv5(0, 5, "x", "TT;", i as i64), |x| body(vec![], vec![], vec![], { let mut x = x; sort_vars(&mut x); x }, vec![]), 65535, true);
    add("variables with both types", lvs("LA;"), |i| lv5(0, 5, "x", "LA;", i as i64), |x| { let mut x = x; sort_vars(&mut x); let mut y: Vec<V> = x.iter().enumerate().map(|(i, v)| lv(v, &format!("LA<TT{i:05};>;"))).collect(); sort_vars(&mut y); body(vec![], vec![], x, y, vec![]) }, 2000, true);
    add("table switch arms", ints(&[0, 1, 2, 4]), |i| I((i % 5) as i64), |x| wrap_code(codev(vec![N("tsw", vec![I(4), I(-3), L(x)]), opn(0), opn(0), opn(0), ret()], vec![], vec![], vec![], vec![], vec![])), 16000, false);
    let ks = |k: i64, t: i64| L(ints(&[k, t]));
    add("lookup switch arms", vec![ks(-5, 0), ks(0, 1), ks(7, 2), ks(i32::MAX as i64, 4), ks(i32::MIN as i64, 0)], |i| L(ints(&[i as i64 * 70 - 200000, (i % 5) as i64])), |x| wrap_code(codev(vec![N("lsw", vec![I(4), L({ let mut x = x; x.sort(); x })]), opn(0), opn(0), opn(0), ret()], vec![], vec![], vec![], vec![], vec![])), 8000, true);
    let cs = || vec![kint(1), kint(2), N("float", vec![I(1)]), N("long", vec![I(1)]), N("double", vec![I(1)]), N("string", vec![s("1")]), N("cls", vec![s("1")]), N("mtype", vec![s("()V")]), mh(6, member("method", "A", "z", "()V")), dynv("in", "I", bsm_handle(1), vec![kint(1)])];
    add("bootstrap arguments", cs(), |i| kint((i % 9000) as i64), |x| wrap_code(code1(N("indy", vec![dynv("i", "()V", bsm_handle(0), x)]))), 65535, false);
    add("dynamic constant arguments", cs(), |i| kint((i % 9000) as i64), |x| wrap_code(code1(N("push", vec![dynv("i", "I", bsm_handle(0), x)]))), 65535, false);
    add("bootstrap methods", vec![dynv("d", "I", bsm_handle(0), vec![]), dynv("e", "I", bsm_handle(0), vec![]), dynv("d", "J", bsm_handle(0), vec![]), dynv("d", "I", bsm_handle(1), vec![]), dynv("d", "I", bsm_handle(0), vec![kint(1)]), dynv("d", "I", bsm_handle(0), vec![kint(2)]), dynv("d", "I", mh(7, member("method", "Boot", "b0", "()V")), vec![])], |i| dynv("d", "I", bsm_handle(0), vec![kint(i as i64 + 10)]), |x| wrap_code(codev(x.into_iter().map(|d| N("push", vec![d])).chain([ret()]).collect(), vec![], vec![], vec![], vec![], vec![])), 2000, false);
    k
}
fn lv(v: &V, d: &str) -> V { let mut l = v.l().clone(); l[3] = s(d); L(l) }
/// All words of the given length over the look-alikes of every kind.
pub fn words(len: usize) -> Vec<V> {
    let mut o = vec![]; let mut w = vec![];
    for k in kinds() {
        let n = k.items.len(); let ix: Vec<usize> = (0..n).collect();
        for c in 0..n.pow(len as u32) {
            crate::engine::word(c, len, &ix, &mut w);
            if k.unique && (1..len).any(|i| w[..i].contains(&w[i])) { continue }
            o.push((k.wrap)(w.iter().map(|i| k.items[*i].clone()).collect()));
        }
    }
    o
}
pub const SMALL: [usize; 33] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257];
pub const LARGE: [usize; 10] = [511, 512, 1000, 1023, 1024, 4096, 32767, 32768, 32769, 65535];
pub fn sizes(large: bool) -> Vec<V> {
    let mut o = vec![];
    for k in kinds() { for &n in if large { &LARGE[..] } else { &SMALL[..] } { if n <= k.max { o.push((k.wrap)((0..n).map(k.many).collect())) } } }
    o
}
/// Text of a length class: `u` repeated, to about `n` encoded bytes.
fn text(c: &str, n: usize) -> Vec<u16> { let b = crate::enc::to_mutf8(&c.encode_utf16().collect::<Vec<_>>()).len(); let mut v = vec![]; for _ in 0..n / b { v.extend(c.encode_utf16()) } for _ in 0..n % b { v.push('z' as u16) } v }
/// Every string position with texts of many lengths.
pub fn long_strings(large: bool) -> Vec<V> {
    let mut o = vec![];
    let ns: &[usize] = if large { &[32766, 32767, 32768, 32769, 65534, 65535] } else { &[15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4096] };
    for &n in ns { for c in ["q", "é", "日", "\u{10000}", "\0"] {
        let t = text(c, n); let v = S(t.clone());
        let de = |k: usize| { let mut d = vec!['L' as u16]; d.extend(text(c, n - k)); d.push(';' as u16); S(d) };
        o.push(classv(52, 1, v.clone(), s("O"), vec![], vec![], vec![], vec![]));
        o.push(classv(52, 1, s("A"), v.clone(), vec![v.clone()], vec![field(1, v.clone(), s("I"), vec![])], vec![field(1, v.clone(), s("()V"), vec![])], vec![]));
        o.push(classv(52, 1, s("A"), s("O"), vec![], vec![field(1, s("f"), de(2), vec![])], vec![], vec![]));
        o.push(wrap_field(vec![N("ConstantValue", vec![N("string", vec![v.clone()])])]));
        o.push(wrap_class(vec![N("SourceFile", vec![v.clone()]), N("SourceDebugExtension", vec![v.clone()]), N("raw", vec![v.clone(), B(vec![1])]), N("NestHost", vec![v.clone()])]));
        o.push(wrap_class(vec![N("Module", vec![v.clone(), I(0), v.clone(), L(vec![N("req", vec![v.clone(), I(0), v.clone()])]), L(vec![N("exp", vec![v.clone(), I(0), L(vec![v.clone()])])]), L(vec![]), L(vec![v.clone()]), L(vec![])])]));
        o.push(wrap_class(vec![N("RVA", vec![L(vec![N("ann", vec![s("LA;"), L(vec![N("pair", vec![v.clone(), ev('s', vec![v.clone()])])])]), N("ann", vec![de(2), L(vec![N("pair", vec![s("k"), ev('e', vec![s("LE;"), v.clone()])]), N("pair", vec![s("l"), ev('c', vec![de(2)])])])])])])]));
        o.push(wrap_method(vec![N("MethodParameters", vec![L(vec![N("mp", vec![v.clone(), I(0)])])]), N("Exceptions", vec![L(vec![v.clone()])])]));
        o.push(wrap_code(code1(N("push", vec![N("string", vec![v.clone()])]))));
        o.push(wrap_code(code1(N("ref", vec![I(184), N("method", vec![v.clone(), v.clone(), s("()V")])]))));
        o.push(wrap_code(code1(N("indy", vec![N("dyn", vec![v.clone(), s("()V"), N("bsm", vec![mh(6, N("method", vec![v.clone(), v.clone(), s("()V")])), L(vec![N("string", vec![v.clone()])])])])]))));
        if c != "\0" { o.push(wrap_class(vec![N("Signature", vec![de(2)])])) }
    } }
    // lengths that do not fit two bytes
    if large {
        for n in [65536usize, 65537, 100_000, 131_072] { o.push(wrap_class(vec![N("SourceDebugExtension", vec![S(text("日", n))]), raw("X", &[7])])); }
        for n in [32767usize, 32768, 65534, 65535, 65536, 65537, 131_071, 131_072, 300_000, (1 << 20) + 1, (1 << 22) + 1] { let b = N("raw", vec![s("Big"), B((0..n).map(|i| (i * 7 % 251) as u8).collect())]); let t = raw("Tail", &[9]); for w in [wrap_class as fn(Vec<V>) -> V, wrap_field, wrap_method, |x| body(vec![], vec![], vec![], vec![], x)] { o.push(w(vec![b.clone(), t.clone()])) } }
    }
    for n in [1usize, 3, 4, 5, 127, 128, 255, 256, 257, 1000] { let b = N("raw", vec![s("Big"), B((0..n).map(|i| (i * 7 % 251) as u8).collect())]); let t = raw("Tail", &[9]); for w in [wrap_class as fn(Vec<V>) -> V, wrap_field, wrap_method, |x| body(vec![], vec![], vec![], vec![], x)] { o.push(w(vec![b.clone(), t.clone()])) } }
    o
}
/// One class per attribute kind and location, and one per kind of constant-pool reference in code.
pub fn reps() -> Vec<V> {
    let mut o = vec![];
    let locs: [(Vec<V>, fn(Vec<V>) -> V); 3] = [(class_attrs(), wrap_class), (field_attrs(), wrap_field), (method_attrs(), wrap_method)];
    for (at, wrap) in locs { let mut seen = vec![]; for a in at.iter().rev() { if a.name() != "code" && seen.contains(&a.name()) { continue } seen.push(a.name()); o.push(wrap(vec![a.clone()])) } }
    let ins: Vec<V> = [kint(40000), N("float", vec![I(1)]), N("long", vec![I(7)]), N("double", vec![I(7)]), N("string", vec![s("s")]), N("cls", vec![s("C")]), N("mtype", vec![s("(I)V")]), handles()[0].clone(), handles()[9].clone(), dyns()[0].clone(), dyns()[1].clone(), dyns()[6].clone()].into_iter().map(|c| N("push", vec![c])).collect();
    for i in ins { o.push(wrap_code(code1(i.clone()))); }
    for i in [N("ref", vec![I(180), member("field", "A", "f", "I")]), N("ref", vec![I(182), member("method", "A", "f", "()I")]), N("ref", vec![I(184), member("imethod", "A", "f", "()I")]), N("itf", vec![member("imethod", "T", "m", "(J)V"), I(3)]), N("indy", vec![indys()[3].clone()]), N("new", vec![s("Q")]), N("newarr", vec![s("[I")]), N("newarr", vec![s("LQ;")]), N("cast", vec![I(192), s("[I")]), N("multi", vec![s("[[I"), I(2)])] { o.push(wrap_code(code1(i))) }
    o
}
/// Every representative behind a constant pool of many sizes: `n` interfaces make 2n entries; `odd` shifts by one.
pub fn padded(large: bool) -> Vec<V> {
    let mut o = vec![];
    let ns: Vec<usize> = if large { vec![8190, 8191, 8192, 16378, 16380, 16381, 16382, 16383, 16384, 32740] } else { (100..=128).chain([1, 2, 3]).collect() };
    for r in reps() { for &n in &ns { for odd in [false, true] {
        let N(_, mut c) = r.clone() else { unreachable!() };
        let mut f: Vec<V> = (0..n).map(|i| s(&format!("P{i}"))).collect(); if odd { f.push(s("f")); f.push(s("Code")) }
        c[5] = L(f); o.push(N("class", c));
    } } }
    o
}
fn shift(v: &V, n: i64, name: &str) -> V {
    let sh = |x: &V| I(x.i() + n);
    let hs = |h: &V| N("h", vec![sh(h.at(0)), sh(h.at(1)), sh(h.at(2)), h.at(3).clone()]);
    match name {
        "h" => hs(v), "line" => L(vec![sh(v.at(0)), v.at(1).clone()]), "lv" => { let mut l = v.l().clone(); l[0] = sh(&l[0]); l[1] = sh(&l[1]); L(l) }
        "insn" => match v.name() { "jmp" => N("jmp", vec![v.at(0).clone(), sh(v.at(1))]), "jsr" => N("jsr", vec![sh(v.at(0))]), "tsw" => N("tsw", vec![sh(v.at(0)), v.at(1).clone(), L(v.at(2).l().iter().map(sh).collect())]), "lsw" => N("lsw", vec![sh(v.at(0)), L(v.at(1).l().iter().map(|p| L(vec![p.at(0).clone(), sh(p.at(1))])).collect())]), _ => v.clone() },
        _ => { // attribute
            if v.name() == "raw" { return v.clone() }
            N(v.name(), vec![L(v.at(0).l().iter().map(|t| { let N(_, mut x) = t.clone() else { unreachable!() }; let N(_, mut g) = x[0].clone() else { unreachable!() };
                g[1] = match g[0].i() { 0x40 | 0x41 => L(g[1].l().iter().map(|r| L(vec![sh(r.at(0)), sh(r.at(1)), r.at(2).clone()])).collect()), 0x42 => hs(&g[1]), _ => sh(&g[1]) };
                x[0] = N("tgt", g); N("tann", x) }).collect())])
        }
    }
}
/// The bodies of `codes`, everything moved up by `n` instructions.
pub fn moved(c: &V, n: usize) -> V {
    let k = n as i64; let m = |i: usize, w: &str| L(c.at(i).l().iter().map(|x| shift(x, k, w)).collect());
    let V::L(ins) = m(2, "insn") else { unreachable!() };
    N("code", vec![c.at(0).clone(), c.at(1).clone(), L(vec![opn(0); n].into_iter().chain(ins).collect()), m(3, "h"), m(4, "line"), m(5, "lv"), m(6, "lv"), m(7, "attr")])
}
pub fn moved_codes(large: bool) -> Vec<V> {
    let mut o = vec![];
    for c in codes() { for n in if large { vec![32766usize, 32767, 32768, 65000] } else { vec![1usize, 2, 3, 5, 126, 127, 128, 251, 252, 253, 254, 255, 256, 257, 1000] } { o.push(wrap_code(moved(&c, n))) } }
    for (st, lo) in [(0i64, 0i64), (1, 65535), (255, 256), (256, 255), (32767, 32768), (32768, 32767), (65535, 1), (65535, 65535)] { let N(_, mut c) = codes()[1].clone() else { unreachable!() }; c[0] = I(st); c[1] = I(lo); o.push(wrap_code(N("code", c))) }
    o
}
/// Nesting of annotations, arrays and dynamic constants.
pub fn deep() -> Vec<V> {
    let mut o = vec![];
    for n in [2usize, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250] {
        let mut a = ev('I', vec![I(1)]); let mut b = a.clone(); let mut c = a.clone(); let mut d = dynv("d0", "I", bsm_handle(0), vec![]);
        for k in 0..n { a = ev('[', vec![L(vec![a])]); b = ev('@', vec![ann("LN;", vec![pair("k", b)])]); c = if k % 2 == 0 { ev('[', vec![L(vec![ev('Z', vec![I(0)]), c])]) } else { ev('@', vec![ann("LN;", vec![pair("k", c), pair("l", ev('Z', vec![I(1)]))])]) }; d = dynv(&format!("d{k}"), "I", bsm_handle((k % 3) as u32), vec![kint(k as i64), d]) }
        for e in [a, b, c] { o.push(wrap_method(vec![N("AnnotationDefault", vec![e.clone()])])); o.push(wrap_field(vec![N("RVTA", vec![L(vec![tann(ints(&[0x13]), L(vec![]), "LT;", vec![pair("x", e)])])])])) }
        if n < 250 { o.push(wrap_code(code1(N("push", vec![d.clone()])))); o.push(wrap_code(code1(N("indy", vec![N("dyn", vec![s("i"), s("()V"), d.at(2).clone()])])))) }
        let g = format!("{}LA;{}", "LA<".repeat(n), ">;".repeat(n)); o.push(wrap_class(vec![N("Signature", vec![s(&g)])])); o.push(wrap_field(vec![N("Signature", vec![s(&g)])]));
    }
    o
}
/// Flags and versions one at a time, all together, and combined with the other parts of the class.
pub fn flags() -> Vec<V> {
    let bits = |m: i64| -> Vec<i64> { let mut v: Vec<i64> = (0..16).map(|b| 1 << b).filter(|b| b & m != 0).collect(); v.push(m); v.push(0); v };
    let mut o = vec![];
    for f in bits(0xF631) { o.push(classv(55, f, s("A"), s("O"), vec![], vec![], vec![], vec![])) }
    for f in bits(0x50DF) { o.push(classv(55, 1, s("A"), s("O"), vec![], vec![field(f, s("f"), s("I"), vec![]), field(f, s("g"), s("I"), vec![N("Synthetic", vec![])])], vec![], vec![])) }
    for f in bits(0x1DFF) { o.push(classv(55, 1, s("A"), s("O"), vec![], vec![], vec![field(f, s("f"), s("()V"), vec![]), field(f, s("<init>"), s("()V"), vec![N("Deprecated", vec![]), code1(opn(0))])], vec![])) }
    for f in bits(0x761F) { o.push(wrap_class(vec![N("InnerClasses", vec![L(vec![N("ic", vec![s("A$B"), s("A"), s("B"), I(f)])])])])) }
    for f in bits(0x9010) { o.push(wrap_method(vec![N("MethodParameters", vec![L(vec![N("mp", vec![s("x"), I(f)]), N("mp", vec![none(), I(f)])])])])) }
    for f in bits(0x9020) { o.push(wrap_class(vec![N("Module", vec![s("m"), I(f), none(), L(vec![]), L(vec![]), L(vec![]), L(vec![]), L(vec![])])])) }
    for f in bits(0x9060) { o.push(module(0, vec![N("req", vec![s("a"), I(f), none()])])) }
    for f in bits(0x9000) { o.push(module(1, vec![N("exp", vec![s("a"), I(f), L(vec![])])])); o.push(module(2, vec![N("open", vec![s("a"), I(f), L(sv(&["x"]))])])) }
    for v in 45..45 + crate::abs::MAJORS.len() as i64 { for minor in [0i64, 1, 3, 65535] { let N(_, mut c) = wrap_code(code1(opn(0))) else { unreachable!() }; c[0] = I(minor); c[1] = I(v); o.push(N("class", c)) } }
    o
}
/// Pairs of attributes at different places of one class.
pub fn across() -> Vec<V> {
    let mut o = vec![]; let rs = reps();
    for (i, a) in rs.iter().enumerate() { for (j, b) in rs.iter().enumerate() {
        let N(_, mut c) = a.clone() else { unreachable!() };
        for k in 6..9 { let mut l = c[k].l().clone(); l.extend(b.at(k).l().iter().cloned()); c[k] = L(l) }
        if i == j { c[3] = s("Twice") }
        o.push(N("class", c));
    } }
    o
}
/// Bodies in which many different positions are referred to, by each kind of reference.
pub fn spread(large: bool) -> Vec<V> {
    let mut o = vec![]; let e = Vec::new; let sorted = |mut v: Vec<V>| { v.sort(); v };
    for &n in if large { &[4097usize, 16385, 32767, 32769, 65534][..] } else { &[127, 128, 129, 255, 256, 257, 258, 300, 513, 1025] } {
        let at = |i: usize| (i * 7 % n) as i64; let m = n as i64;
        let order: Vec<i64> = if n % 7 == 0 { (0..m).rev().collect() } else { (0..n).map(at).collect() };
        let nop = || nops(n);
        o.push(wrap_code(codev(nop(), order.iter().map(|&a| h4(a, a + 1, (a * 3 + 1) % m, if a % 2 == 0 { none() } else { s("E") })).collect(), e(), e(), e(), e())));
        o.push(wrap_code(codev(nop(), e(), (0..m).map(|a| L(vec![I(a), I(a % 65536)])).collect(), e(), e(), e())));
        o.push(wrap_code(codev(nop(), e(), e(), sorted(order.iter().map(|&a| lv5(a, m, &format!("v{}", a % 9000), "I", a)).collect()), e(), e())));
        o.push(wrap_code(codev(nop(), e(), e(), e(), sorted(order.iter().map(|&a| lv5(0, a + 1, &format!("v{}", a % 9000), "TT;", a)).collect()), e())));
        o.push(wrap_code(codev(nop(), e(), e(), e(), e(), vec![N("RVTA", vec![L(order.iter().map(|&a| tn(&[0x44, a])).collect())])])));
        o.push(wrap_code(codev(nop(), e(), e(), e(), e(), vec![N("RITA", vec![L(vec![tann(vec![I(0x40), L(order.iter().map(|&a| L(ints(&[a, m, 1]))).collect())], L(vec![]), "LT;", vec![])])])])));
        if n * 3 < 65534 { let mut b: Vec<V> = order.iter().enumerate().map(|(i, &a)| if (a - i as i64).abs() < 10000 { jmp(167, a) } else { jmp(154, i as i64) }).collect(); b.push(ret()); o.push(wrap_code(codev(b, e(), e(), e(), e(), e()))); }
        if n * 5 + 32 < 65535 { let mut b = nops(n - 1); b.insert(0, N("tsw", vec![I(0), I(-5), L(order.iter().map(|a| I(*a)).collect())])); o.push(wrap_code(codev(b, e(), e(), e(), e(), e()))); }
        if n * 9 + 32 < 65535 { let mut b = nops(n - 1); b.insert(0, N("lsw", vec![I(0), L(order.iter().enumerate().map(|(i, a)| L(vec![I(i as i64 * 3 - 7), I(*a)])).collect())])); o.push(wrap_code(codev(b, e(), e(), e(), e(), e()))); }
    }
    o
}
/// Unconditional branches over long distances, forwards and backwards.
pub fn far() -> Vec<V> {
    let mut o = vec![];
    for n in [1usize, 255, 256, 32760, 32762, 32763, 32764, 32765, 32766, 32767, 32768, 40000, 65000] { for j in [jmp(167, 0), N("jsr", vec![I(0)])] {
        let t = |x: usize| match &j { N("jmp", _) => jmp(167, x as i64), _ => N("jsr", vec![I(x as i64)]) };
        let mut f = vec![t(n + 1)]; f.extend(nops(n)); o.push(wrap_code(codev(f, vec![], vec![], vec![], vec![], vec![])));
        let mut b = nops(n); b.push(t(0)); b.push(t(n + 1)); b.push(ret()); o.push(wrap_code(codev(b, vec![], vec![], vec![], vec![], vec![])));
    } }
    o
}
const WORDS: [&str; 74] = [
    "java/lang/Throwable", "java/lang/Object", "java/lang/String", "java/lang/Class", "java/lang/Exception", "java/lang/Enum", "java/lang/Record", "java/lang/Deprecated", "java/lang/annotation/Annotation", "java/lang/invoke/MethodHandle", "java/lang/invoke/VarHandle", "java/lang/invoke/MethodType", "java.lang.Object", "java.base", "java/io/Serializable",
    "A", "m", "f", "this", "super", "<init>", "<clinit>", "module-info", "package-info", "p/package-info", "p/module-info", "value", "invoke", "invokeExact", "ConstantValue", "Code", "Synthetic", "null", "void", "int", "I", "V", "Z", "T", "(", ")", "()", "<", ">", "$", "A$B", "$1", "-", " ", "\n", "a.b", "a/b/c", "/", ";", "é", "\0", "\u{10ffff}", "\u{feff}x", "TT;", "0", "-1",
    "Ljava/lang/Object;", "Ljava/lang/String;", "Ljava/lang/Deprecated;", "Ljava/lang/Class;", "[Ljava/lang/Object;", "[[J", "()V", "(J)J", "([Ljava/lang/Object;D)V", "()Ljava/lang/invoke/CallSite;", "Ljava/util/List<Ljava/lang/String;>;", "<T:Ljava/lang/Object;>Ljava/lang/Object;", "<T:Ljava/lang/Object;>(TT;)V",
];
fn leaves(v: &V, path: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) { match v { S(_) => o.push(path.clone()), L(l) | N(_, l) => for (i, x) in l.iter().enumerate() { path.push(i); leaves(x, path, o); path.pop(); }, _ => {} } }
fn put(v: &mut V, path: &[usize], x: &V) { if path.is_empty() { *v = x.clone(); return } match v { L(l) | N(_, l) => put(&mut l[path[0]], &path[1..], x), _ => unreachable!() } }
fn get<'a>(v: &'a V, path: &[usize]) -> &'a V { path.iter().fold(v, |v, i| v.at(*i)) }
fn replace(v: &mut V, a: &V, b: &V) { if v == a { *v = b.clone(); return } if let L(l) | N(_, l) = v { for x in l { replace(x, a, b) } } }
/// Every string of every representative replaced by each of many well-known words, and by each other string of the same class; only classes that a file can say.
pub fn names() -> Vec<V> { let mut bases = reps(); bases.extend(codes().into_iter().map(wrap_code)); names_of(bases) }
/// The same for other classes, and for the names of a plain class itself.
pub fn names_of(bases: Vec<V>) -> Vec<V> { names_with(bases, WORDS.iter().map(|w| s(w)).collect(), true) }
/// Every string of every representative replaced by texts that begin or end with each ASCII character and each of some others.
pub fn chars() -> Vec<V> { names_with(reps(), edge_texts(), false) }
pub fn edge_texts() -> Vec<V> {
    let mut cs: Vec<char> = (0u8..128).map(|c| c as char).collect();
    cs.extend("\u{80}\u{85}\u{a0}\u{ad}\u{e9}\u{130}\u{131}\u{17f}\u{301}\u{7ff}\u{800}\u{1e9e}\u{200b}\u{2028}\u{2029}\u{212a}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars());
    let mut v: Vec<V> = cs.iter().flat_map(|c| [s(&format!("x{c}")), s(&format!("{c}x"))]).collect();
    for h in [0xD800, 0xDBFF, 0xDC00, 0xDFFF] { v.push(u(&[0x78, h])); v.push(u(&[h, 0x78])) }
    v
}
fn names_with(mut bases: Vec<V>, words: Vec<V>, own: bool) -> Vec<V> {
    bases.push(classv(55, 0x21, s("A"), s("O"), sv(&["I1", "I2"]), vec![field(0x19, s("f"), s("I"), vec![])], vec![field(9, s("m"), s("()V"), vec![])], vec![]));
    let o = std::sync::Mutex::new(vec![]);
    crate::engine::par(bases.len(), |k| {
        let b = &bases[k]; let mut ps = vec![]; leaves(b, &mut vec![], &mut ps);
        if k + 1 < bases.len() { ps.retain(|p| p.len() > 1 && p.len() > 3) }
        let mut vals: Vec<V> = words.clone(); if own { for p in &ps { vals.push(get(b, p).clone()) } } vals.sort(); vals.dedup();
        let mut out = vec![];
        for p in &ps { for x in &vals {
            if get(b, p) == x { continue }
            if !own && (get(b, &p[..p.len() - 1]).name() == "Signature" || matches!(get(b, &p[..p.len() - 1]), L(l) if l.len() == 5 && p.last() == Some(&3))) { continue }
            // signatures keep to their grammar, and so do array element types
            let up = get(b, &p[..p.len() - 1]);
            if up.name() == "newarr" && x.st().contains(&('<' as u16)) { continue }
            if up.name() == "Signature" || matches!(up, L(l) if l.len() == 5 && p.last() == Some(&3)) { let w = String::from_utf16_lossy(x.st()); let m = w.ends_with(")V") || w == "(J)J" || w == "()Ljava/lang/invoke/CallSite;"; let f = w.starts_with("Ljava") || w == "TT;" || w.starts_with("["); if !(if up.name() == "Signature" && p[0] == 7 { m && w.starts_with(['(', '<']) } else if p[0] == 8 { w.starts_with("<T") && !m || w.starts_with("Ljava") } else { f && !(w.contains('<') && p.len() > 5 && p[p.len() - 3] == 5) }) { continue } }
            let par = up; let mut c = b.clone();
            if par.name() == "h" { let mut n = par.clone(); put(&mut n, &p[p.len() - 1..], x); replace(&mut c, par, &n) } else { put(&mut c, p, x) }
            if crate::parse::parse_class(&crate::enc::encode(&c, &Default::default())).is_ok_and(|g| g == c) { out.push(c) }
        } }
        o.lock().unwrap().push((k, out));
    });
    let mut o = o.into_inner().unwrap(); o.sort_by_key(|x| x.0);
    o.into_iter().flat_map(|x| x.1).collect()
}
