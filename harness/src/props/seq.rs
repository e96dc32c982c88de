//! C26: counted sequences and pool-indexed strings: the codecs every table of a class file is made of.
use crate::engine::*;
use coffer::helper::{Class, ConstantPoolReadWriteAs as Cp, Identity, Module, Normal, Package, ReadWriteAs as Rw, String as Str, Vec16, Vec32, Vec8};
use coffer::prelude::*;
use coffer::{ConstantPoolReader, ConstantPoolWriter};
use std::fmt::Debug;
use std::io;
use wtf_8::{Wtf8Str, Wtf8String};
type R<T> = Result<T, String>;
type S = Cow<'static, Wtf8Str>;

/// Gives one byte at a time and says whether it was asked for more than there is.
struct Slow<'a>(&'a [u8], bool);
impl io::Read for Slow<'_> { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { if o.is_empty() { return Ok(0) } if self.0.is_empty() { self.1 = true; return Ok(0) } o[0] = self.0[0]; self.0 = &self.0[1..]; Ok(1) } }
/// A pool of our own: entries in the order of insertion, equal ones once, two places for wide ones.
#[derive(Default)]
struct P { e: Vec<Option<RawConstantEntry>> }
impl ConstantPoolWriter for P {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        let w = Some(v);
        if let Some(k) = self.e.iter().position(|x| *x == w) { return k as u16 + 1 }
        let wide = matches!(w, Some(RawConstantEntry::Long(_) | RawConstantEntry::Double(_)));
        self.e.push(w); let k = self.e.len() as u16; if wide { self.e.push(None) }
        k
    }
    fn insert_bsm(&mut self, _: BootstrapMethod) -> u16 { unreachable!() }
}
impl ConstantPoolReader for P {
    fn read_raw(&mut self, k: u16) -> Option<RawConstantEntry> { self.e.get((k as usize).checked_sub(1)?)?.clone() }
    fn resolve_later(&mut self, _: u16, _: std::sync::Arc<once_cell::sync::OnceCell<BootstrapMethod>>) { unreachable!() }
    fn bootstrap_methods(&mut self, _: &[BootstrapMethod]) -> coffer::Result<()> { unreachable!() }
}
/// Takes `left` bytes and then fails.
struct Full { left: usize, got: Vec<u8> }
impl io::Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if b.is_empty() { return Ok(0) } if self.left == 0 { return Err(io::Error::new(io::ErrorKind::Other, "full")) } let n = b.len().min(self.left); self.left -= n; self.got.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// What writing gives, on a fresh and on a failing writer, and what reading the result gives, in several streams.
fn trip<T: PartialEq + Debug>(x: &T, want: Option<&[u8]>, faults: bool, write: &dyn Fn(&T, &mut dyn io::Write) -> coffer::Result<()>, read: &dyn Fn(&mut dyn io::Read) -> coffer::Result<T>) -> R<u64> {
    let mut o = vec![0x5A]; let r = write(x, &mut o);
    let Some(want) = want else { return match r { Ok(()) => Err(format!("written without an error, in {} bytes", o.len())), Err(_) => Ok(1) } };
    r.map_err(|e| format!("not written: {e}"))?;
    if o[0] != 0x5A || o[1..] != *want { return Err(format!("written as {}, expected {}", clip(&hex(&o[1..])), clip(&hex(want)))) }
    for tail in [0, 3] {
        let mut s = want.to_vec(); s.extend(vec![0xEE; tail]);
        let mut r = &s[..];
        let y = read(&mut r).map_err(|e| format!("not read back: {e}"))?;
        if y != *x || r.len() != tail { return Err(format!("read back as {}, {} bytes left of {tail}", clip(&format!("{y:?}")), r.len())) }
    }
    if want.len() < 5000 {
        let mut r = Slow(want, false);
        let y = read(&mut r).map_err(|e| format!("not read back byte by byte: {e}"))?;
        if y != *x || !r.0.is_empty() || r.1 { return Err(format!("read byte by byte as {}, {} bytes left, asks for more: {}", clip(&format!("{y:?}")), r.0.len(), r.1)) }
    }
    if faults {
        for k in 0..want.len() {
            if let Ok(y) = read(&mut &want[..k]) { return Err(format!("read from its first {k} bytes as {y:?}")) }
            let mut w = Full { left: k, got: vec![] };
            if write(x, &mut w).is_ok() { return Err(format!("written without an error to a writer that takes {k} of {} bytes", want.len())) }
            if w.got != want[..k] { return Err(format!("the first {k} bytes are written as {}", hex(&w.got))) }
        }
    }
    Ok(fnv(want))
}
/// Counts to explore: every one up to `all`, and those around powers of two and around the limits.
fn counts(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    for p in [256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 49152, 65536, 131072] { for d in -2i64..=2 { v.push((p as i64 + d) as usize) } }
    v.retain(|x| *x <= max); v.sort(); v.dedup(); v
}
fn head(w: usize, n: usize) -> Option<Vec<u8>> { if w < 8 && n >> (8 * w) != 0 { None } else { Some((n as u64).to_be_bytes()[8 - w..].to_vec()) } }
fn seq<T: PartialEq + Debug>(w: usize, v: &[T], enc: impl Fn(&T) -> Vec<u8>) -> Option<Vec<u8>> { let mut o = head(w, v.len())?; for x in v { o.extend(enc(x)) } Some(o) }

pub fn c26(ctx: &'static Ctx) -> i32 {
    ctx.rule("every count of every length width (all small ones, those around every power of two and around each width's limit) over every element codec, nested sequences of every shape up to the bound; each written to a good writer and to one that fails at every byte, read back whole, byte by byte, with bytes behind it, and from every prefix; strings by every kind of pool entry under every kind of tag; distinct: hash of the bytes");
    let all = ctx.pick(1100, 70000);
    ctx.note("every count up to", all);
    // plain elements, by width
    macro_rules! plain { ($v:ident, $w:expr, $t:ty, $max:expr) => {{
        let cs = counts(all, $max);
        par(cs.len(), |k| { let n = cs[k]; ctx.case(|| format!("{} of {n} {}", stringify!($v), stringify!($t)), || {
            let v: Vec<$t> = (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(i as u32) as $t).collect();
            ctx.steps(4); ctx.state(hash_of(&(stringify!($t), $w, n)));
            trip(&v, seq($w, &v, |x| x.to_be_bytes().to_vec()).as_deref(), n <= 40, &|x, mut o| <$v<Identity> as Rw<Vec<$t>>>::write_to(x, &mut o), &|mut r| <$v<Identity> as Rw<Vec<$t>>>::read_from(&mut r))?;
            Ok(n as u64)
        }) });
    }} }
    plain!(Vec8, 1, u8, 70000); plain!(Vec8, 1, i8, 600); plain!(Vec8, 1, u16, 600); plain!(Vec8, 1, i32, 600); plain!(Vec8, 1, u64, 600);
    plain!(Vec16, 2, u8, 140000); plain!(Vec16, 2, u16, 140000); plain!(Vec16, 2, i32, 70000); plain!(Vec16, 2, i64, 70000);
    plain!(Vec32, 4, u8, 140000); plain!(Vec32, 4, u16, 70000); plain!(Vec32, 4, u32, 70000); plain!(Vec32, 4, i128, 5000);
    // the same through a pool that is not used
    macro_rules! normal { ($v:ident, $w:expr, $t:ty, $max:expr) => {{
        let cs = counts(all, $max);
        par(cs.len(), |k| { let n = cs[k]; ctx.case(|| format!("{}<Normal> of {n} {}", stringify!($v), stringify!($t)), || {
            let v: Vec<$t> = (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(i as u32) as $t).collect();
            ctx.steps(4);
            trip(&v, seq($w, &v, |x| x.to_be_bytes().to_vec()).as_deref(), n <= 40, &|x, mut o| { let mut cp = P::default(); let r = <$v<Normal> as Cp<Vec<$t>>>::write_to(x, &mut cp, &mut o); assert!(cp.read_raw(1).is_none(), "the pool was used"); r }, &|mut r| <$v<Normal> as Cp<Vec<$t>>>::read_from(&mut P::default(), &mut r))?;
            Ok(n as u64)
        }) });
    }} }
    normal!(Vec8, 1, u8, 70000); normal!(Vec8, 1, u32, 600); normal!(Vec16, 2, u16, 140000); normal!(Vec16, 2, i64, 70000);
    // nested: every shape of up to 3 lists of up to 3 lists of up to 2 elements (by the counts alone)
    {
        let inner: Vec<Vec<Vec<u8>>> = { let mut v: Vec<Vec<Vec<u8>>> = vec![vec![]]; let mut last = v.clone(); for _ in 0..3 { let mut nx = vec![]; for x in &last { for k in 0..3usize { let mut y = x.clone(); y.push((0..k).map(|i| (x.len() * 16 + i + 1) as u8).collect()); nx.push(y) } } v.extend(nx.iter().cloned()); last = nx } v };
        let m = inner.len();
        par(1 + m + m * m, |k| {
            let v: Vec<Vec<Vec<u8>>> = if k == 0 { vec![] } else if k <= m { vec![inner[k - 1].clone()] } else { let k = k - 1 - m; vec![inner[k / m].clone(), inner[k % m].clone()] };
            ctx.state(hash_of(&v));
            ctx.case(|| format!("nested {v:?}"), || {
                let e1 = |x: &Vec<u8>| seq(1, x, |b| vec![*b]).unwrap(); let e2 = |x: &Vec<Vec<u8>>| seq(2, x, e1).unwrap();
                ctx.steps(8);
                trip(&v, seq(4, &v, e2).as_deref(), true, &|x, mut o| <Vec32<Vec16<Vec8>> as Rw<Vec<Vec<Vec<u8>>>>>::write_to(x, &mut o), &|mut r| <Vec32<Vec16<Vec8>> as Rw<Vec<Vec<Vec<u8>>>>>::read_from(&mut r))?;
                trip(&v, seq(1, &v, e2).as_deref(), true, &|x, mut o| <Vec8<Vec16<Vec8>> as Rw<Vec<Vec<Vec<u8>>>>>::write_to(x, &mut o), &|mut r| <Vec8<Vec16<Vec8>> as Rw<Vec<Vec<Vec<u8>>>>>::read_from(&mut r))?;
                trip(&v, seq(2, &v, |x: &Vec<Vec<u8>>| seq(2, x, e1).unwrap()).as_deref(), true, &|x, mut o| <Vec16<Vec16<Vec8<Normal>>> as Cp<Vec<Vec<Vec<u8>>>>>::write_to(x, &mut P::default(), &mut o), &|mut r| <Vec16<Vec16<Vec8<Normal>>> as Cp<Vec<Vec<Vec<u8>>>>>::read_from(&mut P::default(), &mut r))
            });
        });
    }
    // an inner sequence that does not fit fails the whole
    for n in [255usize, 256, 257, 512, 65536] { for at in 0..3 { ctx.case(|| format!("inner sequence {at} has {n} elements"), || {
        let mut v = vec![vec![1u8], vec![2], vec![3]]; v[at] = vec![7; n];
        let want = if n > 255 { None } else { seq(2, &v, |x| seq(1, x, |b| vec![*b]).unwrap()) };
        trip(&v, want.as_deref(), false, &|x, mut o| <Vec16<Vec8> as Rw<Vec<Vec<u8>>>>::write_to(x, &mut o), &|mut r| <Vec16<Vec8> as Rw<Vec<Vec<u8>>>>::read_from(&mut r))
    }) } }
    // strings of text, each with its own length
    let texts: Vec<S> = ["", "a", "\0", "é", "日本", "\u{1F600}", "abc"].iter().map(|x| Cow::Borrowed(Wtf8Str::new(x))).chain([Cow::Owned(Wtf8String::from_wide(&[0xD800])), Cow::Owned(Wtf8String::from_wide(&[0x61, 0xDC00]))]).collect();
    let enc = |x: &S| { let m = crate::enc::to_mutf8(&x.encode_wide().collect::<Vec<_>>()); let mut o = (m.len() as u16).to_be_bytes().to_vec(); o.extend(m); o };
    for l in 0..=3 { let n = texts.len().pow(l); par(n, |k| { let v: Vec<S> = { let mut k = k; (0..l).map(|_| { let t = texts[k % texts.len()].clone(); k /= texts.len(); t }).collect() }; ctx.state(hash_of(&v)); ctx.case(|| format!("texts {v:?}"), || { ctx.steps(4); trip(&v, seq(1, &v, enc).as_deref(), l < 3, &|x, mut o| <Vec8 as Rw<Vec<S>>>::write_to(x, &mut o), &|mut r| <Vec8 as Rw<Vec<S>>>::read_from(&mut r))?; trip(&v, seq(2, &v, enc).as_deref(), false, &|x, mut o| <Vec16<Normal> as Cp<Vec<S>>>::write_to(x, &mut P::default(), &mut o), &|mut r| <Vec16<Normal> as Cp<Vec<S>>>::read_from(&mut P::default(), &mut r)) }) }) }
    // strings by index: every tag, required and optional, sequences with repeats
    macro_rules! tagged { ($($h:ident, $tag:expr);*) => { $(
        for l in 0..=3u32 { let n = (texts.len() + 1).pow(l); par(n, |k| {
            let v: Vec<Option<S>> = { let mut k = k; (0..l).map(|_| { let t = k % (texts.len() + 1); k /= texts.len() + 1; texts.get(t).cloned() }).collect() };
            ctx.case(|| format!("{} {v:?}", stringify!($h)), || {
                let mut cp = P::default(); for x in 0..(k % 3) { cp.insert_int(x as i32); }
                let mut o = vec![]; ctx.steps(2);
                <Vec16<$h> as Cp<Vec<Option<S>>>>::write_to(&v, &mut cp, &mut o).map_err(|e| e.to_string())?;
                if o.len() != 2 + 2 * l as usize || o[..2] != (l as u16).to_be_bytes() { return Err(format!("written as {}", hex(&o))) }
                for (i, x) in v.iter().enumerate() {
                    let idx = u16::from_be_bytes([o[2 + 2 * i], o[3 + 2 * i]]);
                    match (x, idx) { (None, 0) => {} (Some(t), 1..) => {
                        let w = match cp.read_raw(idx) { Some(RawConstantEntry::Class(w)) if $tag == 7 => w, Some(RawConstantEntry::String(w)) if $tag == 8 => w, Some(RawConstantEntry::Module(w)) if $tag == 19 => w, Some(RawConstantEntry::Package(w)) if $tag == 20 => w, e => return Err(format!("entry {i} is {e:?}")) };
                        match cp.read_raw(w) { Some(RawConstantEntry::WTF8(y)) if y == *t => {} e => return Err(format!("entry {i} names {e:?}")) }
                    } _ => return Err(format!("entry {i} has index {idx}")) }
                }
                for (i, x) in v.iter().enumerate() { for (j, y) in v.iter().enumerate() { if (x == y) != (o[2 + 2 * i..4 + 2 * i] == o[2 + 2 * j..4 + 2 * j]) { return Err(format!("entries {i} and {j}: {}", hex(&o))) } } }
                let mut r = &o[..]; let y = <Vec16<$h> as Cp<Vec<Option<S>>>>::read_from(&mut cp, &mut r).map_err(|e| e.to_string())?;
                if y != v || !r.is_empty() { return Err(format!("read back as {y:?}")) }
                let req: R<Vec<S>> = <Vec16<$h> as Cp<Vec<S>>>::read_from(&mut cp, &mut &o[..]).map_err(|e| e.to_string());
                match (v.iter().cloned().collect::<Option<Vec<_>>>(), req) { (Some(a), Ok(b)) if a == b => { let mut p = vec![]; <Vec16<$h> as Cp<Vec<S>>>::write_to(&a, &mut cp, &mut p).map_err(|e| e.to_string())?; if p != o { return Err(format!("required strings written as {}, optional as {}", hex(&p), hex(&o))) } } (None, Err(_)) => {} (a, b) => return Err(format!("as required strings {a:?}: {b:?}")) }
                for c in 0..o.len() { if <Vec16<$h> as Cp<Vec<Option<S>>>>::read_from(&mut cp, &mut &o[..c]).is_ok() { return Err(format!("{c} bytes are enough")) } }
                Ok(fnv(&o))
            });
        }) }
        // every kind of entry under this tag
        ctx.case(|| format!("{} over every kind of entry", stringify!($h)), || {
            let mut cp = P::default(); let t = cp.insert_wtf8(Cow::Borrowed(Wtf8Str::new("x")));
            let es = [(7, RawConstantEntry::Class(t)), (8, RawConstantEntry::String(t)), (19, RawConstantEntry::Module(t)), (20, RawConstantEntry::Package(t)), (1, RawConstantEntry::WTF8(Cow::Borrowed(Wtf8Str::new("y")))), (3, RawConstantEntry::Int(1)), (5, RawConstantEntry::Long(t as i64)), (12, RawConstantEntry::NameAndType(t, t)), (16, RawConstantEntry::MethodType(t)), (9, RawConstantEntry::Field(t, t)), (0, RawConstantEntry::Class(0)), (0, RawConstantEntry::String(0)), (0, RawConstantEntry::Module(900)), (0, RawConstantEntry::Package(65535))];
            for (tag, e) in es {
                let i = cp.insert_raw(e.clone()); let b = i.to_be_bytes();
                let a = <$h as Cp<S>>::read_from(&mut cp, &mut &b[..]); let o = <$h as Cp<Option<S>>>::read_from(&mut cp, &mut &b[..]); ctx.steps(2);
                if tag == $tag { if !matches!(&a, Ok(x) if **x == *"x") || !matches!(&o, Ok(Some(x)) if **x == *"x") { return Err(format!("{e:?}: {a:?}, {o:?}")) } } else if a.is_ok() || o.is_ok() { return Err(format!("{e:?} accepted: {a:?}, {o:?}")) }
            }
            for b in [[0u8, 0], [3, 0], [0xFF, 0xFF]] { let a = <$h as Cp<S>>::read_from(&mut cp, &mut &b[..]); let o = <$h as Cp<Option<S>>>::read_from(&mut cp, &mut &b[..]); if a.is_ok() || (b == [0, 0]) != matches!(o, Ok(None)) || matches!(o, Ok(Some(_))) { return Err(format!("index {b:?}: {a:?}, {o:?}")) } }
            Ok($tag)
        });
    )* } }
    tagged!(Class, 7; Str, 8; Module, 19; Package, 20);
    // numbers by index
    ctx.case(|| "sequences of numbers by index".into(), || {
        for n in 0..=40usize {
            let mut cp = P::default(); let v: Vec<i32> = (0..n as i32).map(|i| i * i % 11).collect(); let mut o = vec![];
            <Vec8<Identity> as Cp<Vec<i32>>>::write_to(&v, &mut cp, &mut o).map_err(|e| e.to_string())?;
            if o.len() != 1 + 2 * n || o[0] as usize != n { return Err(format!("{n} numbers written as {}", hex(&o))) }
            for (i, x) in v.iter().enumerate() { if cp.read_int(u16::from_be_bytes([o[1 + 2 * i], o[2 + 2 * i]])) != Some(*x) { return Err(format!("number {i} of {n}")) } }
            let mut r = &o[..]; let y: Vec<i32> = <Vec8<Identity> as Cp<Vec<i32>>>::read_from(&mut cp, &mut r).map_err(|e| e.to_string())?; if y != v || !r.is_empty() { return Err(format!("{n} numbers read as {y:?}")) }
            let v: Vec<i64> = (0..n as i64).map(|i| i * i % 11).collect(); let mut o = vec![];
            <Vec16<Identity> as Cp<Vec<i64>>>::write_to(&v, &mut cp, &mut o).map_err(|e| e.to_string())?;
            for (i, x) in v.iter().enumerate() { if cp.read_long(u16::from_be_bytes([o[2 + 2 * i], o[3 + 2 * i]])) != Some(*x) { return Err(format!("long {i} of {n}")) } }
            let y: Vec<i64> = <Vec16<Identity> as Cp<Vec<i64>>>::read_from(&mut cp, &mut &o[..]).map_err(|e| e.to_string())?; if y != v { return Err(format!("{n} longs read as {y:?}")) }
            ctx.steps(4);
        }
        Ok(1)
    });
    // a count that promises more than there is: an error, without memory for what is not there
    for (name, bytes) in [("Vec32", vec![0xFFu8, 0xFF, 0xFF, 0xFF, 1, 2, 3]), ("Vec32", vec![0x7F, 0xFF, 0xFF, 0xFF]), ("Vec32", vec![0x10, 0, 0, 0, 9])] { ctx.case(|| format!("{name} from {}", hex(&bytes)), || {
        let (r, m) = measure(|| <Vec32 as Rw<Vec<u64>>>::read_from(&mut &bytes[..]).map(|v| v.len()).map_err(|e| e.to_string()));
        match r { Ok(n) => Err(format!("{n} elements read")), Err(_) if m > 1 << 20 => Err(format!("{m} bytes of memory used")), Err(_) => Ok(2) }
    }) }
    ctx.finish("model_checking")
}
