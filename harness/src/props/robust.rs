//! C04 corrupted input, C05 I/O faults.
use super::c01::{same, write};
use crate::engine::*;
use crate::v::*;
use crate::{abs, enc, gen};
use coffer::clazz::Class;
use coffer::ReadWrite;
use std::io::{self, Read, Write};

fn alloc_limit(len: usize) -> i64 { (24 << 20) + 512 * len as i64 }
/// One image through reader, writer and reader again. Returns an outcome hash.
pub fn judge(ctx: &Ctx, b: &[u8], must_fail: bool) -> Result<u64, String> {
    let (r, peak) = measure(|| guard(|| Class::read_from(&mut &b[..])));
    ctx.steps(1);
    if peak > alloc_limit(b.len()) { return Err(format!("reading {} bytes allocated {peak} bytes at once", b.len())) }
    let r = r.map_err(|e| format!("reading crashed: {e}; bytes {}", clip(&hex(b))))?;
    let c = match r { Err(_) => return Ok(0), Ok(c) => c };
    if must_fail || runs_short(b) { return Err(format!("a truncated file was accepted; bytes {}", clip(&hex(b)))) }
    let w = guard(|| write(&c)).map_err(|e| format!("writing an accepted class crashed: {e}; bytes {}", clip(&hex(b))))?;
    ctx.steps(1);
    let Ok(w) = w else { return Ok(1) };
    let v = abs::class(&c)?;
    let c2 = guard(|| Class::read_from(&mut &w[..])).map_err(|e| format!("reading back crashed: {e}; bytes {}", clip(&hex(b))))?.map_err(|e| format!("what was written for {} does not read back: {e}; written {}", clip(&hex(b)), clip(&hex(&w))))?;
    ctx.steps(1);
    same(&format!("accepted {}, written and read back", clip(&hex(b))), &v, &abs::class(&c2)?)?;
    Ok(fnv(&w))
}
/// The structure the file announces (pool, members, attribute lengths) needs more bytes than there are.
pub fn runs_short(b: &[u8]) -> bool {
    fn walk(b: &[u8]) -> Option<()> {
        let mut i = 10usize;
        let u2 = |i: usize| -> Option<usize> { Some(u16::from_be_bytes([*b.get(i)?, *b.get(i + 1)?]) as usize) };
        let u4 = |i: usize| -> Option<usize> { Some(u2(i)? << 16 | u2(i + 2)?) };
        let n = u2(8)?; let mut k = 1;
        while k < n {
            k += 1;
            i += match b.get(i)? { 1 => 3 + u2(i + 1)?, 3 | 4 | 9..=12 | 17 | 18 => 5, 5 | 6 => { k += 1; 9 } 7 | 8 | 16 | 19 | 20 => 3, 15 => 4, _ => return Some(()) };
        }
        i += 6; i += 2 + 2 * u2(i)?;
        for _ in 0..2 { let n = u2(i)?; i += 2; for _ in 0..n { let a = u2(i + 6)?; i += 8; for _ in 0..a { i += 6 + u4(i + 2)? } } }
        let a = u2(i)?; i += 2; for _ in 0..a { i += 6 + u4(i + 2)? }
        if i <= b.len() { Some(()) } else { None }
    }
    walk(b).is_none()
}
fn seeds(ctx: &Ctx) -> Vec<V> {
    let mut v = vec![];
    let mut push = |at: Vec<V>, w: fn(Vec<V>) -> V| {
        let mut per: std::collections::HashMap<&str, usize> = Default::default();
        for a in at { let k = per.entry(a.name()).or_default(); *k += 1; if ctx.thorough() || *k <= 4 || a.name() == "code" || a.name() == "AnnotationDefault" || a.name() == "Module" { v.push(w(vec![a])) } }
    };
    push(gen::class_attrs(), gen::wrap_class); push(gen::field_attrs(), gen::wrap_field); push(gen::method_attrs(), gen::wrap_method);
    let mut kinds: std::collections::HashSet<String> = Default::default();
    for i in gen::simple_insns() {
        let key = match i.name() { "op" => continue, "push" => format!("push {}", i.at(0).name()), "ref" => format!("ref {} {}", i.at(0).i(), i.at(1).name()), "load" | "store" | "ret" | "iinc" => format!("{} {}", i.name(), if i.at(i.l().len() - 1).i() > 255 { 1 } else { 0 }), n => format!("{n} {}", i.at(0).name()) };
        if kinds.insert(key) || ctx.thorough() { v.push(gen::wrap_code(gen::code1(i))) }
    }
    let sk = gen::skeletons();
    v.extend(sk[sk.len() - 4..].iter().cloned());
    // deep but legal nesting
    v.push(gen::wrap_method(vec![N("AnnotationDefault", vec![gen::ev('[', vec![L(vec![gen::ev('@', vec![gen::ann("LN;", vec![gen::pair("k", gen::ev('[', vec![L(vec![gen::ev('e', vec![s("LE;"), s("X")])])]))])])])])])]));
    v
}
/// Positions whose content is text of a UTF-8 constant longer than 8 bytes are mutated with fewer values.
fn boundary() -> Vec<u8> { vec![0, 1, 2, 0x28, 0x29, 0x2E, 0x3B, 0x3C, 0x40, 0x4C, 0x5B, 0x7F, 0x80, 0xBF, 0xC0, 0xED, 0xF0, 0xFE, 0xFF] }
pub fn c04(ctx: &'static Ctx) -> i32 {
    ctx.rule("seed files from the independent encoder covering every structure; every truncation, every byte set to every value, every 16-bit field and 32-bit field set to boundary values, every byte deleted, duplicated or preceded by 0; distinct: hash of what was written for accepted inputs");
    ctx.assume("memory is in proportion when the peak during a read stays below 24 MiB + 512 bytes per input byte (16-bit counts may reserve their tables)");
    let sd = seeds(ctx);
    let files: Vec<Vec<u8>> = { let mut f = vec![]; for v in &sd { f.push(enc::encode(v, &enc::Ch { frames: true, ..Default::default() })); } f.push(enc::encode(&sd[0], &enc::Ch { junk: 20, ..Default::default() })); f };
    ctx.note("seed files", files.len()); ctx.note("seed bytes", files.iter().map(|f| f.len()).sum::<usize>());
    par(files.len(), |k| { ctx.state(fnv(&files[k])); ctx.case(|| format!("seed {}", hex(&files[k])), || { let r = judge(ctx, &files[k], false)?; if r == 0 { return Err("seed rejected".into()) } Ok(r) }) });
    let jobs: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..f.len()).map(move |p| (k, p))).collect();
    let bd = boundary();
    par(jobs.len(), |j| {
        let (k, p) = jobs[j]; let f = &files[k];
        ctx.case(|| format!("seed {} mutated at offset {p}", hex(f)), || {
            let mut h = 0u64; let mut n = 0;
            let mut go = |b: &[u8], must: bool| -> Result<(), String> { let x = judge(ctx, b, must)?; n += 1; if x > 1 { ctx.outcome(x) } h = h.wrapping_mul(31).wrapping_add(x); Ok(()) };
            go(&f[..p], true)?;
            let mut b = f.clone();
            if ctx.thorough() || sd.len() > k { for x in 0..=255u8 { if x != f[p] { b[p] = x; go(&b, false)? } } } else { for x in &bd { b[p] = *x; go(&b, false)? } }
            b[p] = f[p];
            if p + 2 <= f.len() { let o = u16::from_be_bytes([f[p], f[p + 1]]); for x in [0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, o.wrapping_add(1), o.wrapping_sub(1), 0x0100, 0x00FF] { b[p..p + 2].copy_from_slice(&x.to_be_bytes()); go(&b, false)? } b[p..p + 2].copy_from_slice(&f[p..p + 2]) }
            if p + 4 <= f.len() { let o = u32::from_be_bytes([f[p], f[p + 1], f[p + 2], f[p + 3]]); for x in [0u32, 1, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFFE, o.wrapping_add(1), o.wrapping_sub(1)] { b[p..p + 4].copy_from_slice(&x.to_be_bytes()); go(&b, false)? } b[p..p + 4].copy_from_slice(&f[p..p + 4]) }
            let mut d = f.clone(); d.remove(p); go(&d, false)?;
            let mut d = f.clone(); d.insert(p, f[p]); go(&d, false)?;
            let mut d = f.clone(); d.insert(p, 0); go(&d, false)?;
            ctx.more(n - 1);
            Ok(h)
        });
    });
    if ctx.thorough() {
        // all pairs of boundary substitutions on the smallest files
        let mut small: Vec<&Vec<u8>> = files.iter().filter(|f| f.len() < 150).collect(); small.sort_by_key(|f| f.len()); small.truncate(60);
        let jobs: Vec<(&Vec<u8>, usize)> = small.iter().flat_map(|f| (0..f.len()).map(move |p| (*f, p))).collect();
        let vals = [0u8, 1, 2, 7, 0x7F, 0x80, 0xFF];
        par(jobs.len(), |j| { let (f, p) = jobs[j]; ctx.case(|| format!("pairs from offset {p} of {}", hex(f)), || {
            let mut b = f.clone(); let mut n = 0;
            for q in p + 1..f.len() { for x in vals { for y in vals { b[p] = x; b[q] = y; let o = judge(ctx, &b, false)?; if o > 1 { ctx.outcome(o) } n += 1 } b[q] = f[q] } }
            ctx.more(n); Ok(n)
        }) });
    }
    nesting(ctx);
    ctx.finish("model_checking")
}
/// Builds a class whose pool is given raw and whose single class attribute is `name` with body `body`.
fn raw_class(pool: &[Vec<u8>], attrs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 55];
    b.extend((pool.len() as u16 + 1).to_be_bytes());
    for p in pool { b.extend(p) }
    b.extend([0, 0x21, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0]);
    b.extend((attrs.len() as u16).to_be_bytes());
    for (n, d) in attrs { b.extend(n.to_be_bytes()); b.extend((d.len() as u32).to_be_bytes()); b.extend(d) }
    b
}
fn utf(x: &str) -> Vec<u8> { let mut v = vec![1]; v.extend((x.len() as u16).to_be_bytes()); v.extend(x.as_bytes()); v }
fn two(t: u8, a: u16, b: u16) -> Vec<u8> { let mut v = vec![t]; v.extend(a.to_be_bytes()); v.extend(b.to_be_bytes()); v }
fn one(t: u8, a: u16) -> Vec<u8> { let mut v = vec![t]; v.extend(a.to_be_bytes()); v }
/// Inputs that nest or refer in circles, at every depth of a list, on a stack of ordinary size.
fn nesting(ctx: &'static Ctx) {
    let depths: Vec<usize> = { let mut v: Vec<usize> = (1..=20).collect(); v.extend([100, 200, 250, 253, 254, 255, 256, 257, 258, 300, 1000, 5000, 16000]); v };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for &d in &depths {
        for kind in 0..5 {
            // annotation values nested d deep
            let pool = vec![utf("A"), one(7, 1), utf("RuntimeVisibleAnnotations"), utf("LX;"), utf("e")];
            let mut body = vec![0, 1, 0, 4, 0, 1, 0, 5];
            for i in 0..d { let arr = match kind { 0 => true, 1 => false, _ => i % 2 == kind % 2 }; if arr { body.extend([b'[', 0, 1]) } else { body.extend([b'@', 0, 4, 0, 1, 0, 5]) } }
            body.extend([b's', 0, 5]);
            if kind == 4 { body.truncate(body.len() - 2) }
            files.push((format!("annotation nesting {d} kind {kind}"), raw_class(&pool, &[(3, body)])));
        }
        if d * 3 < 60000 {
            for (n, t) in [("<", "L".to_string() + &"a<La".repeat(d) + ";" + &">;".repeat(d)), ("unclosed", "La<".repeat(d)), ("[", "[".repeat(d) + "I"), ("inner", "La".to_string() + &".b".repeat(d) + ";"), ("*", "La<".to_string() + &"*".repeat(d) + ">;"), ("^", format!("L{}", "<".repeat(d)))] {
                if t.len() > 65535 { continue }
                files.push((format!("signature {n} {d}"), raw_class(&[utf("A"), one(7, 1), utf("Signature"), utf(&t)], &[(3, vec![0, 4])])));
                let pool = vec![utf("A"), one(7, 1), utf("RuntimeVisibleAnnotations"), utf(&t)];
                files.push((format!("descriptor {n} {d}"), raw_class(&pool, &[(3, vec![0, 1, 0, 4, 0, 0])])));
            }
            let t = "(".repeat(d) + &")V".repeat(d);
            if t.len() < 65536 { files.push((format!("descriptor ( {d}"), raw_class(&[utf("A"), one(7, 1), utf("RuntimeVisibleAnnotations"), utf(&t)], &[(3, vec![0, 1, 0, 4, 0, 0])]))) }
        }
        // bootstrap methods: chain of d, chain closing into a cycle, DAG with two references per level
        for kind in 0..4 {
            if d > 5000 { continue }
            let mut pool = vec![utf("A"), one(7, 1), utf("BootstrapMethods"), utf("m"), utf("()V"), two(12, 4, 5), two(10, 2, 6), { let mut v = vec![15, 6]; v.extend([0, 7]); v }, utf("I"), two(12, 4, 9)];
            let base = pool.len() as u16 + 1;
            let n = d as u16;
            for i in 0..n { pool.push(two(17, i, 10)) } // dynamic i -> bootstrap method i
            let mut body = n.to_be_bytes().to_vec();
            for i in 0..n {
                body.extend([0, 8]);
                let args: Vec<u16> = match kind { 0 => if i + 1 < n { vec![base + i + 1] } else { vec![] }, 1 => vec![base + (i + 1) % n], 2 => if i + 1 < n { vec![base + i + 1, base + i + 1] } else { vec![] }, _ => if i > 0 { vec![base + i - 1, base] } else { vec![] } };
                body.extend((args.len() as u16).to_be_bytes()); for a in args { body.extend(a.to_be_bytes()) }
            }
            files.push((format!("bootstrap {} {d}", ["chain", "cycle", "diamond chain", "backward"][kind]), raw_class(&pool, &[(3, body)])));
        }
    }
    ctx.note("nesting files", files.len());
    let cyc = |n: &str| n.starts_with("bootstrap cycle");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (files, next) = (&files, &next);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= files.len() { break }
                let (n, b) = &files[k];
                ctx.state(fnv(b));
                ctx.case(|| n.clone(), || {
                    let (r, peak) = measure(|| Class::read_from(&mut &b[..])); ctx.steps(1);
                    if peak > alloc_limit(b.len()) { return Err(format!("reading {} bytes allocated {peak} bytes", b.len())) }
                    let Ok(c) = r else { return Ok(hash_of(n)) };
                    if cyc(n) { return Err("cyclic bootstrap arguments accepted".into()) }
                    if let Ok(w) = write(&c) {
                        let c2 = Class::read_from(&mut &w[..]).map_err(|e| format!("what was written does not read back: {e}"))?; ctx.steps(2);
                        let w2 = write(&c2).map_err(|e| format!("second write: {e}"))?;
                        if w2.len() != w.len() { return Err(format!("rewriting changes the size from {} to {}", w.len(), w2.len())) }
                        if !n.contains("diamond") && !n.contains("backward") { same("written and read back", &abs::class(&c)?, &abs::class(&c2)?)? }
                    }
                    Ok(hash_of(n))
                });
            }).unwrap();
        }
    });
}

// ------------------------------------------------------------------ C05
use io::ErrorKind as K;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { None, Err(K), Transient(K), Eof, Intr(u32), Zero }
/// The environment: hands out at most `chunk` bytes, never across a cut, and answers `fault` at position `at`.
struct Env<'a> { data: &'a [u8], out: Vec<u8>, pos: usize, cuts: [usize; 2], chunk: usize, at: usize, fault: Fault, left: u32, fired: bool, calls: u64 }
impl<'a> Env<'a> {
    fn new(data: &'a [u8], cuts: [usize; 2], chunk: usize, at: usize, fault: Fault) -> Self { Env { data, out: vec![], pos: 0, cuts, chunk, at, fault, left: match fault { Fault::Intr(n) => n, Fault::Transient(_) => 1, _ => u32::MAX }, fired: false, calls: 0 } }
    fn allow(&self, want: usize) -> usize {
        let mut n = want.min(self.chunk);
        for c in self.cuts.iter().chain([&self.at]) { if *c > self.pos { n = n.min(c - self.pos) } }
        n
    }
    fn strike(&mut self) -> Option<io::Result<usize>> {
        if self.pos != self.at || self.left == 0 { return None }
        let r = match self.fault { Fault::None => return None, Fault::Err(k) | Fault::Transient(k) => Err(io::Error::new(k, "injected")), Fault::Eof | Fault::Zero => Ok(0), Fault::Intr(_) => Err(io::Error::new(K::Interrupted, "injected")) };
        self.fired = true;
        self.left -= 1; if self.left > 1 << 20 { self.left = u32::MAX }
        Some(r)
    }
}
impl Read for Env<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0) }
        if let Some(r) = self.strike() { return r }
        let n = self.allow(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n)
    }
}
impl Write for Env<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0) }
        if let Some(r) = self.strike() { return r }
        let n = self.allow(b.len()); self.out.extend(&b[..n]); self.pos += n; Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
const KINDS: [K; 9] = [K::Other, K::BrokenPipe, K::WouldBlock, K::TimedOut, K::UnexpectedEof, K::InvalidData, K::InvalidInput, K::PermissionDenied, K::OutOfMemory];
fn is_injected(e: &coffer::Error, k: K) -> bool { matches!(e, coffer::error::ErrorBase::IO(e) if e.kind() == k && e.get_ref().is_some_and(|x| x.to_string() == "injected")) }
pub fn c05(ctx: &'static Ctx) -> i32 {
    ctx.rule("every environment answer at every byte position: failure of each kind (lasting and transient), early end of input, zero-length write, one or three interruptions, every single and every pair of transfer cuts, fixed chunk sizes; distinct: (file, position, answer)");
    ctx.assume("Interrupted is retried and Ok(0) from a writer is WriteZero, as std's read_exact/write_all define");
    let sd = seeds(ctx);
    let files: Vec<(Vec<u8>, V, Vec<u8>, Class)> = sd.iter().map(|v| { let f = enc::encode(v, &enc::Ch { frames: true, ..Default::default() }); let c = Class::read_from(&mut &f[..]).unwrap_or_else(|e| panic!("seed rejected: {e}")); let w = write(&c).unwrap(); let mut t = f; t.extend([0xAA; 9]); (t, abs::class(&c).unwrap(), w, c) }).collect();
    ctx.note("files", files.len());
    for f in &files { ctx.state(fnv(&f.0)); }
    // a reader behaviour that must not matter
    let benign_read = |f: &(Vec<u8>, V, Vec<u8>, Class), e: &mut Env, what: &dyn Fn() -> String| -> Result<(), String> {
        let c = guard(|| Class::read_from(e)).map_err(|x| format!("{}: {x}", what()))?.map_err(|x| format!("{}: reading fails: {x}", what()))?;
        ctx.steps(e.calls);
        if e.pos != f.0.len() - 9 { return Err(format!("{}: reading consumed {} of {} bytes", what(), e.pos, f.0.len() - 9)) }
        same(&what(), &f.1, &abs::class(&c)?)
    };
    let benign_write = |f: &(Vec<u8>, V, Vec<u8>, Class), e: &mut Env, what: &dyn Fn() -> String| -> Result<(), String> {
        guard(|| f.3.write_to(e)).map_err(|x| format!("{}: {x}", what()))?.map_err(|x| format!("{}: writing fails: {x}", what()))?;
        ctx.steps(e.calls);
        if e.out != f.2 { return Err(format!("{}: bytes differ: {} instead of {}", what(), clip(&hex(&e.out)), clip(&hex(&f.2)))) }
        Ok(())
    };
    let far = usize::MAX;
    let jobs: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..f.0.len().max(f.2.len() + 9) - 9).map(move |p| (k, p))).collect();
    par(jobs.len(), |j| {
        let (k, p) = jobs[j]; let f = &files[k];
        ctx.case(|| format!("position {p} of {:?}", sd[k]), || {
            let mut n = 0u64;
            if p < f.0.len() - 9 {
                for kind in KINDS { for tr in [false, true] { for chunk in [far, 1] {
                    let mut e = Env::new(&f.0, [far; 2], chunk, p, if tr { Fault::Transient(kind) } else { Fault::Err(kind) });
                    let r = guard(|| Class::read_from(&mut e)).map_err(|x| format!("read fault {kind:?} at {p}: {x}"))?; ctx.steps(e.calls); n += 1;
                    match r { Ok(_) => return Err(format!("read fault {kind:?} at {p} (transient {tr}) was swallowed")), Err(x) => if !is_injected(&x, kind) { return Err(format!("read fault {kind:?} at {p} (transient {tr}) reported as: {x:?}")) } }
                } } }
                for chunk in [far, 1] {
                    let mut e = Env::new(&f.0, [far; 2], chunk, p, Fault::Eof);
                    let r = guard(|| Class::read_from(&mut e)).map_err(|x| format!("end of input at {p}: {x}"))?; ctx.steps(e.calls); n += 1;
                    match r { Ok(_) => return Err(format!("end of input at {p} was swallowed")), Err(coffer::error::ErrorBase::IO(x)) if x.kind() == K::UnexpectedEof => (), Err(x) => return Err(format!("end of input at {p} reported as: {x:?}")) }
                    for t in [1, 3] { let mut e = Env::new(&f.0, [far; 2], chunk, p, Fault::Intr(t)); benign_read(f, &mut e, &|| format!("interrupted {t} times at {p}"))?; n += 1 }
                }
                for q in if ctx.thorough() || f.0.len() < 130 { p + 1..f.0.len() - 9 } else { p + 1..(p + 6).min(f.0.len() - 9) } {
                    let mut e = Env::new(&f.0, [p, q], far, far, Fault::None); benign_read(f, &mut e, &|| format!("reads cut at {p} and {q}"))?; n += 1;
                }
            }
            if p < f.2.len() {
                for chunk in [far, 1] {
                    for tr in [false, true] {
                        for fault in KINDS.map(|k| if tr { Fault::Transient(k) } else { Fault::Err(k) }).into_iter().chain([Fault::Zero]) {
                            let mut e = Env::new(&[], [far; 2], chunk, p, fault);
                            let r = guard(|| f.3.write_to(&mut e)).map_err(|x| format!("write fault {fault:?} at {p}: {x}"))?; ctx.steps(e.calls); n += 1;
                            let Err(x) = r else { return Err(format!("write fault {fault:?} at {p} was swallowed")) };
                            let ok = match fault { Fault::Err(k) | Fault::Transient(k) => is_injected(&x, k), _ => matches!(&x, coffer::error::ErrorBase::IO(x) if x.kind() == K::WriteZero) };
                            if !ok { return Err(format!("write fault {fault:?} at {p} reported as: {x:?}")) }
                            if !f.2.starts_with(&e.out) { return Err(format!("write fault {fault:?} at {p}: bytes written are no prefix of the output: {}", clip(&hex(&e.out)))) }
                        }
                    }
                    for t in [1, 3] { let mut e = Env::new(&[], [far; 2], chunk, p, Fault::Intr(t)); benign_write(f, &mut e, &|| format!("write interrupted {t} times at {p}"))?; n += 1 }
                }
                for q in if ctx.thorough() || f.2.len() < 120 { p + 1..f.2.len() } else { p + 1..(p + 6).min(f.2.len()) } {
                    let mut e = Env::new(&[], [p, q], far, far, Fault::None); benign_write(f, &mut e, &|| format!("writes cut at {p} and {q}"))?; n += 1;
                }
            }
            if p == 0 { for c in 1..40 {
                let mut e = Env::new(&f.0, [far; 2], c, far, Fault::None); benign_read(f, &mut e, &|| format!("reads of {c}"))?;
                let mut e = Env::new(&[], [far; 2], c, far, Fault::None); benign_write(f, &mut e, &|| format!("writes of {c}"))?; n += 2;
            } }
            ctx.more(n - 1);
            Ok(hash_of(&(k, p)))
        });
    });
    // every class of the grammar and its families: in small pieces, followed by something else
    super::c01::each(ctx, &|v: &V, large| {
        ctx.case(|| format!("in pieces: {v:?}"), || {
            let c = crate::conc::class(v); let w = write(&c)?;
            for chunk in if large { &[8191usize][..] } else { &[1, 7] } {
                let mut e = Env::new(&[], [far; 2], *chunk, far, Fault::None);
                c.write_to(&mut e).map_err(|x| format!("writes of {chunk}: writing fails: {x}"))?;
                if e.out != w { return Err(format!("writes of {chunk} give different bytes: {} instead of {}", clip(&hex(&e.out)), clip(&hex(&w)))) }
            }
            let mut t = w.clone(); t.extend([0xAA; 9]);
            let want = abs::class(&Class::read_from(&mut &w[..]).map_err(|x| x.to_string())?)?;
            for chunk in if large { &[8191usize][..] } else { &[1, 7, usize::MAX] } {
                let mut e = Env::new(&t, [far; 2], *chunk, far, Fault::None);
                let c = Class::read_from(&mut e).map_err(|x| format!("reads of {chunk}: reading fails: {x}"))?;
                if e.pos != w.len() { return Err(format!("reads of {chunk}: consumed {} of {} bytes", e.pos, w.len())) }
                same(&format!("reads of {chunk}"), &want, &abs::class(&c)?)?;
            }
            for at in [w.len() - 1, w.len() / 2] {
                let mut e = Env::new(&t, [far; 2], far, at, Fault::Err(K::TimedOut));
                if !Class::read_from(&mut e).is_err_and(|x| is_injected(&x, K::TimedOut)) { return Err(format!("read fault at {at} of {} not reported", w.len())) }
                let mut e = Env::new(&[], [far; 2], far, at, Fault::Err(K::TimedOut));
                if !c.write_to(&mut e).is_err_and(|x| is_injected(&x, K::TimedOut)) { return Err(format!("write fault at {at} of {} not reported", w.len())) }
                if !w.starts_with(&e.out) { return Err(format!("write fault at {at}: bytes written are no prefix of the output")) }
                if guard(|| Class::read_from(&mut &w[..at]))?.is_ok() { return Err(format!("end of input at {at} of {} was swallowed", w.len())) }
            }
            ctx.steps(12);
            Ok(fnv(&w))
        })
    });
    ctx.finish("fault_enumeration")
}
