//! `V`: a neutral tree saying what a class file says. Strings are UTF-16 code units.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V { I(i64), S(Vec<u16>), B(Vec<u8>), L(Vec<V>), N(&'static str, Vec<V>) }
pub use V::*;
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            I(i) => write!(f, "{i}"),
            S(s) => { write!(f, "\"")?; for r in char::decode_utf16(s.iter().copied()) { match r { Ok(c) => write!(f, "{}", c.escape_debug())?, Err(e) => write!(f, "\\u{{{:x}}}", e.unpaired_surrogate())? } } write!(f, "\"") }
            B(b) => { write!(f, "x'")?; for x in b { write!(f, "{x:02x}")? } write!(f, "'") }
            L(l) => { write!(f, "[")?; for (i, x) in l.iter().enumerate() { if i > 0 { write!(f, " ")? } write!(f, "{x:?}")? } write!(f, "]") }
            N(n, l) => { write!(f, "({n}")?; for x in l { write!(f, " {x:?}")? } write!(f, ")") }
        }
    }
}
pub fn s(x: &str) -> V { S(x.encode_utf16().collect()) }
pub fn none() -> V { N("none", vec![]) }
pub fn n(name: &'static str, v: Vec<V>) -> V { N(name, v) }
impl V {
    pub fn i(&self) -> i64 { match self { I(i) => *i, _ => panic!("V: int expected, got {self:?}") } }
    pub fn st(&self) -> &Vec<u16> { match self { S(s) => s, _ => panic!("V: string expected, got {self:?}") } }
    pub fn l(&self) -> &Vec<V> { match self { L(l) => l, N(_, l) => l, _ => panic!("V: list expected, got {self:?}") } }
    pub fn name(&self) -> &'static str { match self { N(n, _) => n, _ => "" } }
    pub fn at(&self, i: usize) -> &V { &self.l()[i] }
    pub fn opt(&self) -> Option<&V> { if self.name() == "none" { None } else { Some(self) } }
}
/// First difference between two trees, as path + both sides.
pub fn diff(a: &V, b: &V) -> Option<String> {
    fn go(a: &V, b: &V, path: &mut String) -> Option<String> {
        if a == b { return None }
        let (la, lb) = match (a, b) {
            (L(x), L(y)) => (x, y),
            (N(p, x), N(q, y)) if p == q => { path.push_str(&format!("/{p}")); (x, y) }
            _ => return Some(format!("at {path}: expected {a:?}, got {b:?}")),
        };
        if la.len() != lb.len() { return Some(format!("at {path}: expected {} items {a:?}, got {} items {b:?}", la.len(), lb.len())) }
        for (i, (x, y)) in la.iter().zip(lb).enumerate() {
            let l = path.len();
            path.push_str(&format!("/{i}"));
            if let Some(d) = go(x, y, path) { return Some(d) }
            path.truncate(l);
        }
        None
    }
    go(a, b, &mut String::new())
}

thread_local! { static KEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Local variable tables are compared as sets unless order is asked for.
pub fn sort_vars(v: &mut [V]) { if !KEEP.with(|k| k.get()) { v.sort() } }
pub fn keep_order<T>(f: impl FnOnce() -> T) -> T { KEEP.with(|k| k.set(true)); let r = f(); KEEP.with(|k| k.set(false)); r }
