//! C06 modified UTF-8, C07 WTF-8 validation, C08 WTF-8 string operations.
use crate::abs::{bytes16, w16};
use crate::enc::to_mutf8;
use crate::engine::*;
use crate::parse::mutf8;
use coffer::mod_utf8::*;
use coffer::prelude::*;
use coffer::ReadWrite;
use std::collections::HashMap;
use wtf_8::*;

/// Modified UTF-8 with the two leniencies the specification of coffer leaves open: raw zero bytes and 4-byte forms.
fn lenient(b: &[u8]) -> Result<Vec<u16>, ()> {
    let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        match b[i] {
            0 => { o.push(0); i += 1 }
            0xF0..=0xFF => {
                let s = std::str::from_utf8(b.get(i..i + 4).ok_or(())?).map_err(|_| ())?;
                o.extend(s.encode_utf16()); i += 4
            }
            _ => { let n = match b[i] { 1..=0x7F => 1, 0x80..=0xDF => 2, _ => 3 }; o.extend(mutf8(b.get(i..i + n).ok_or(())?).map_err(|_| ())?); i += n }
        }
    }
    Ok(o)
}
fn dec_check(b: &[u8]) -> Result<u64, String> {
    let got = modified_utf8_to_string(b);
    let strict = mutf8(b);
    match (&strict, &got) {
        (Ok(w), Ok(g)) => { let g = bytes16(g.as_bytes()).map_err(|e| format!("decoding {b:02x?} gives ill-formed WTF-8: {e}"))?; if g != *w { return Err(format!("decoding {b:02x?}: expected {w:04x?}, got {g:04x?}")) } Ok(hash_of(w)) }
        (Ok(w), Err(e)) => Err(format!("valid {b:02x?} ({w:04x?}) rejected: {e}")),
        (Err(_), Ok(g)) => {
            let g = bytes16(g.as_bytes()).map_err(|e| format!("decoding {b:02x?} gives ill-formed WTF-8: {e}"))?;
            match lenient(b) { Err(()) => Err(format!("malformed {b:02x?} accepted as {g:04x?}")), Ok(w) if w == g => Ok(1), Ok(w) => Err(format!("decoding {b:02x?} gives {g:04x?}, expected {w:04x?} or an error")) }
        }
        (Err(_), Err(_)) => Ok(2),
    }
}
fn enc_check(u: &[u16]) -> Result<u64, String> {
    let w = Wtf8String::from_wide(u);
    let want = to_mutf8(u);
    let got = string_to_modified_utf8(&w);
    if got != want { return Err(format!("encoding {u:04x?}: expected {want:02x?}, got {got:02x?}")) }
    dec_check(&got)
}
fn rw_check(u: &[u16]) -> Result<u64, String> {
    let w = Wtf8String::from_wide(u);
    let m = to_mutf8(u);
    let mut want = (m.len() as u16).to_be_bytes().to_vec(); want.extend(&m);
    let outs: [(&str, Box<dyn Fn(&mut Vec<u8>) -> coffer::Result<()>>); 3] = [
        ("Wtf8String", Box::new(|o| w.write_to(o))), ("Cow", Box::new(|o| ReadWrite::write_to(&Cow::<Wtf8Str>::Owned(w.clone()), o))), ("StrRef", Box::new(|o| StrRef(&w).write_to(o)))];
    for (n, f) in &outs {
        let mut o = vec![]; let r = f(&mut o);
        if m.len() > 65535 { if r.is_ok() { return Err(format!("{n}: {} bytes written without error", m.len())) } continue }
        r.map_err(|e| format!("{n}: {e}"))?;
        if o != want { return Err(format!("{n}: wrote {o:02x?}, expected {want:02x?}")) }
    }
    if m.len() > 65535 { return Ok(0) }
    want.push(0x55);
    let mut r = &want[..];
    let g = Wtf8String::read_from(&mut r).map_err(|e| e.to_string())?;
    if w16(&g) != u || r.len() != 1 { return Err(format!("Wtf8String::read_from of {u:04x?}: {:04x?}, {} left", w16(&g), r.len())) }
    let mut r = &want[..];
    let g = <Cow<'static, Wtf8Str> as ReadWrite>::read_from(&mut r).map_err(|e| e.to_string())?;
    if w16(&g) != u || r.len() != 1 { return Err(format!("Cow::read_from of {u:04x?}")) }
    Ok(fnv(&want))
}
const UNITS: [u16; 20] = [0, 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xCFFF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF];
const BYTES: [u8; 26] = [0x00, 0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF];
/// Every word of length `len` over `a`, batched by 4096, each passed to `f` with prefix and suffix around it.
fn words(ctx: &Ctx, what: &str, len: usize, a: &[u8], pre: &[u8], suf: &[u8], f: impl Fn(&[u8]) -> Result<u64, String> + Sync) {
    let n = a.len().pow(len as u32);
    let blocks = n.div_ceil(4096);
    par(blocks, |b| {
        ctx.case(|| format!("{what}: words of length {len}, block {b} of 4096, prefix {pre:02x?}, suffix {suf:02x?}"), || {
            let mut w = vec![]; let mut buf = Vec::new(); let mut h = 0u64; let mut last = 0;
            let (lo, hi) = (b * 4096, ((b + 1) * 4096).min(n));
            for k in lo..hi {
                word(k, len, a, &mut w);
                buf.clear(); buf.extend_from_slice(pre); buf.extend_from_slice(&w); buf.extend_from_slice(suf);
                let x = f(&buf)?;
                if x != last { ctx.outcome(x); ctx.state(x); last = x }
                h = h.wrapping_mul(31).wrapping_add(x);
            }
            ctx.steps((hi - lo) as u64); ctx.more((hi - lo) as u64 - 1);
            Ok(h)
        });
    });
}
/// Offsets at which something interesting is put into a long string: every small one, and those around powers of two.
fn offsets(all: usize) -> Vec<usize> { (0..=all).chain([95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65534, 65535, 65536, 65537].into_iter().filter(|x| *x > all)).collect() }
/// `off` bytes of filler: characters of one width (`kind` is the width; 5: lone lead surrogates, 6: lone trail surrogates), made up to the length with ASCII in front.
fn filler(off: usize, kind: usize) -> Vec<u8> {
    let c: &[u8] = [&b"x"[..], b"y", "\u{e9}".as_bytes(), "\u{65e5}".as_bytes(), "\u{1f600}".as_bytes(), &[0xED, 0xA1, 0x82], &[0xED, 0xB1, 0x82]][kind];
    let mut v = vec![b'x'; off % c.len()];
    while v.len() < off { v.extend_from_slice(c) }
    v
}
/// Every word up to length `len` over `a` at every offset of a long string: after every kind of filler, and before filler of several lengths.
fn long_words(ctx: &Ctx, what: &str, len: usize, a: &[u8], kinds: &[usize], tails: &[usize], fill: impl Fn(usize, usize) -> Vec<u8> + Sync, f: impl Fn(&[u8]) -> Result<u64, String> + Sync) {
    let offs = offsets(ctx.pick(70, 140));
    par(offs.len() * kinds.len(), |k| {
        let (off, kind) = (offs[k / kinds.len()], kinds[k % kinds.len()]);
        let len = if off > 4100 { 1 } else if off > 256 { len.min(2) } else { len };
        let pre = fill(off, kind);
        ctx.case(|| format!("{what}: words of up to {len} bytes after {off} bytes of filler {kind}, before {tails:?} more bytes"), || {
            let (mut w, mut buf, mut h, mut n) = (vec![], vec![], 0u64, 0u64);
            for l in 0..=len { for i in 0..a.len().pow(l as u32) { word(i, l, a, &mut w); for t in tails {
                buf.clear(); buf.extend_from_slice(&pre); buf.extend_from_slice(&w); buf.extend(fill(*t, kind));
                h = h.wrapping_mul(31).wrapping_add(f(&buf)?); n += 1;
            } } }
            ctx.steps(n); ctx.more(n - 1); ctx.outcome(h);
            Ok(h)
        });
    });
}
pub fn c06(ctx: &'static Ctx) -> i32 {
    ctx.rule("encode: every code point alone and between every pair of boundary units, every word over 20 boundary code units; decode: every byte word over a boundary alphabet, alone and inside contexts that force the rewriting path; distinct: hash of decoded text");
    ctx.assume("raw zero bytes and 4-byte UTF-8 forms inside modified UTF-8 may be accepted (with their UTF-8 meaning) or rejected");
    // every code point, alone and in context
    let n = 0x110000usize / 4096;
    let ctxs: Vec<(Vec<u16>, Vec<u16>)> = { let mut v = vec![(vec![], vec![])]; for a in [0u16, 0x41, 0x7FF, 0xD800, 0xDBFF, 0xDC00] { for b in [0u16, 0x41, 0xD800, 0xDC00, 0xDFFF] { v.push((vec![a], vec![b])) } } v };
    ctx.note("code points", 0x110000); ctx.note("contexts", ctxs.len());
    par(n * ctxs.len(), |k| {
        let (pre, suf) = &ctxs[k / n]; let b = k % n;
        ctx.case(|| format!("code points {:#x}.. between {pre:04x?} and {suf:04x?}", b * 4096), || {
            let mut h = 0u64;
            for cp in (b * 4096) as u32..((b + 1) * 4096) as u32 {
                let mut u = pre.clone();
                if cp < 0x10000 { u.push(cp as u16) } else { let x = cp - 0x10000; u.push(0xD800 | (x >> 10) as u16); u.push(0xDC00 | (x & 0x3FF) as u16) }
                u.extend(suf);
                h = h.wrapping_mul(31).wrapping_add(enc_check(&u)?);
                if k < n { ctx.state(cp as u64); }
            }
            ctx.steps(8192); ctx.more(4095);
            Ok(h)
        });
    });
    let l = ctx.pick(4, 5);
    ctx.note("unit word length", l);
    for len in 0..=l {
        let n = UNITS.len().pow(len as u32); let bl = n.div_ceil(2048);
        par(bl, |b| ctx.case(|| format!("unit words of length {len}, block {b}"), || {
            let mut w = vec![]; let mut h = 0u64;
            for k in b * 2048..((b + 1) * 2048).min(n) { word(k, len, &UNITS, &mut w); let x = enc_check(&w)?; ctx.outcome(x); h = h.wrapping_mul(31).wrapping_add(x); if len <= 3 { rw_check(&w)?; } }
            ctx.steps(2048); ctx.more(2047); Ok(h)
        }));
    }
    // length-prefixed strings around the limit
    for c in [0x41u16, 0x80, 0, 0xD800, 0x800] { let k = to_mutf8(&[c]).len(); for d in [-1i64, 0, 1] { let u = vec![c; (65535 / k as i64 + d) as usize]; ctx.case(|| format!("{} units of {c:#x}", u.len()), || rw_check(&u)) } }
    // truncated length-prefixed input
    for b in [&[0u8, 3, 0x41, 0x41][..], &[0][..], &[][..], &[0, 1][..], &[0xff, 0xff, 0x41][..]] { ctx.case(|| format!("string image {b:02x?}"), || match Wtf8String::read_from(&mut &b[..]) { Ok(s) => Err(format!("accepted as {s:?}")), Err(_) => Ok(3) }) }
    let l = ctx.pick(4, 5);
    ctx.note("byte word length", l);
    for len in 0..=l { words(ctx, "decode", len, &BYTES, &[], &[], dec_check) }
    words(ctx, "decode", 2, &(0..=255u8).collect::<Vec<_>>(), &[], &[], dec_check);
    let small: Vec<u8> = vec![0x41, 0x80, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xEF];
    let ctxs: [(&[u8], &[u8]); 9] = [(&[0xC0, 0x80], &[]), (&[], &[0xC0, 0x80]), (&[0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80], &[]), (&[], &[0xED, 0xAF, 0xBF, 0xED, 0xBF, 0xBF]), (&[0xED, 0xA0, 0x80], &[]), (&[0xED, 0xA0], &[0xED, 0xB0, 0x80]), (&[0xED, 0xA0, 0x80], &[0xED, 0xB0, 0x80]), (&[0xC0], &[0xC0, 0x80]), (&[0xED, 0xB0, 0x80], &[0xC0, 0x80])];
    for (p, s) in ctxs { for len in 0..=ctx.pick(4, 5) { words(ctx, "decode", len, &small, p, s, dec_check) } }
    words(ctx, "decode", 6, &small[..if ctx.thorough() { 12 } else { 11 }], &[], &[], dec_check);
    words(ctx, "decode", ctx.pick(6, 7), &[0x41, 0x80, 0xA0, 0xB0, 0xBF, 0xED], &[], &[], dec_check);
    // long strings: something to rewrite (or wrong) at every offset
    long_words(ctx, "decode", 2, &small, &[1, 2, 3, 5, 6], &[0, 1, 16, 64], filler, dec_check);
    for (n, seq) in [("lead", vec![0xED, 0xA0, 0x80]), ("pair", vec![0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80]), ("zero", vec![0xC0, 0x80]), ("lead and zero", vec![0xED, 0xA0, 0x80, 0xC0, 0x80]), ("two pairs", vec![0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80, 0xED, 0xAF, 0xBF, 0xED, 0xBF, 0xBF])] {
        long_words(ctx, &format!("decode, {n} before the word"), 2, &[0x41, 0x80, 0xA0, 0xB0, 0xBF, 0xC0, 0xED], &[1, 3, 5], &[0, 5, 33, 64], |o, k| { let mut v = filler(o, k); v.extend(&seq); v }, dec_check);
    }
    let offs = offsets(ctx.pick(70, 140)); let fills: [&[u16]; 6] = [&[0x78], &[0xE9], &[0x65E5], &[0xD83D, 0xDE00], &[0xD801], &[0]];
    par(offs.len() * fills.len(), |k| {
        let (off, f) = (offs[k / fills.len()], fills[k % fills.len()]);
        ctx.case(|| format!("encode: unit words after {off} units of {f:04x?}"), || {
            let mut w = vec![]; let mut h = 0u64; let mut n = 0;
            let pre: Vec<u16> = f.iter().copied().cycle().take(off).collect();
            for l in 0..=(if off > 256 { 1 } else { 2 }) { for i in 0..UNITS.len().pow(l as u32) { word(i, l, &UNITS, &mut w); for t in [0, 1, 40] {
                let mut u = pre.clone(); u.extend(&w); u.extend(f.iter().copied().cycle().take(t));
                h = h.wrapping_mul(31).wrapping_add(enc_check(&u)?); if t == 1 { rw_check(&u)?; } n += 1;
            } } }
            ctx.steps(n); ctx.more(n - 1); Ok(h)
        });
    });
    if ctx.thorough() { words(ctx, "decode", 8, &[0x80, 0xA0, 0xB0, 0xED, 0xC0], &[], &[], dec_check); words(ctx, "decode", 3, &(0..=255u8).collect::<Vec<_>>(), &[], &[], dec_check) }
    ctx.finish("model_checking")
}

/// Length of the longest prefix that is well-formed WTF-8 (own decoder: generalised UTF-8 code points, no lead+trail pair).
fn wf_prefix(b: &[u8]) -> usize {
    let mut i = 0; let mut lead = false;
    while i < b.len() {
        let x = b[i];
        let n = if x < 0x80 { 1 } else if x & 0xE0 == 0xC0 { 2 } else if x & 0xF0 == 0xE0 { 3 } else if x & 0xF8 == 0xF0 { 4 } else { return i };
        if i + n > b.len() { return i }
        let mut cp: u32 = match n { 1 => x as u32, 2 => x as u32 & 0x1F, 3 => x as u32 & 0xF, _ => x as u32 & 7 };
        for k in 1..n { if b[i + k] >> 6 != 2 { return i } cp = cp << 6 | (b[i + k] as u32 & 0x3F) }
        if cp < [0, 0, 0x80, 0x800, 0x10000][n] || cp > 0x10FFFF { return i }
        let trail = (0xDC00..=0xDFFF).contains(&cp);
        if trail && lead { return i }
        lead = (0xD800..=0xDBFF).contains(&cp);
        i += n;
    }
    i
}
/// Whether the bytes from `p` on are the beginning of a code point that is allowed there.
fn incomplete(b: &[u8], p: usize) -> bool {
    let r = &b[p..];
    let lead = p >= 3 && b[p - 3] == 0xED && (0xA0..=0xAF).contains(&b[p - 2]);
    let (n, lo, hi) = match r[0] { 0xC2..=0xDF => (2, 0x80, 0xBF), 0xE0 => (3, 0xA0, 0xBF), 0xED if lead => (3, 0x80, 0xAF), 0xE1..=0xEF => (3, 0x80, 0xBF), 0xF0 => (4, 0x90, 0xBF), 0xF1..=0xF3 => (4, 0x80, 0xBF), 0xF4 => (4, 0x80, 0x8F), _ => return false };
    r.len() < n && r[1..].iter().all(|x| x >> 6 == 2) && (r.len() < 2 || (lo <= r[1] && r[1] <= hi))
}
fn val_check(b: &[u8]) -> Result<u64, String> {
    let p = wf_prefix(b);
    let r = validate_wtf8(b);
    match &r {
        Ok(()) if p == b.len() => {}
        Ok(()) => return Err(format!("{b:02x?} accepted, but only {p} bytes are well-formed")),
        Err(e) if p == b.len() => return Err(format!("well-formed {b:02x?} rejected: {e}")),
        Err(e) => {
            if e.valid_up_to() != p { return Err(format!("{b:02x?}: valid_up_to {} instead of {p}", e.valid_up_to())) }
            match e.error_len() {
                None => if !incomplete(b, p) { return Err(format!("{b:02x?}: reported as cut off, but no continuation makes the bytes from {p} valid")) },
                Some(l) => {
                    let l = l.get() as usize;
                    if incomplete(b, p) { return Err(format!("{b:02x?}: reported as {l} wrong bytes at {p}, but more input could complete them")) }
                    if p + l > b.len() { return Err(format!("{b:02x?}: reported as {l} wrong bytes at {p}, beyond the end")) }
                    if b[p + 1..p + l].iter().any(|x| x >> 6 != 2) { return Err(format!("{b:02x?}: reported as {l} wrong bytes at {p}, which include the start of the next code point")) }
                }
            }
        }
    }
    let s = Wtf8Str::from_bytes(b);
    match (&r, &s) { (Ok(()), Ok(s)) if s.as_bytes() == b => {} (Err(a), Err(c)) if a == c => {} _ => return Err(format!("Wtf8Str::from_bytes({b:02x?}) = {s:?} but validate_wtf8 = {r:?}")) }
    let o = Wtf8String::from_bytes(b.to_vec());
    match (&r, &o) { (Ok(()), Ok(s)) if s.as_bytes() == b => {} (Err(a), Err(c)) if a == c => {} _ => return Err(format!("Wtf8String::from_bytes({b:02x?}) = {o:?} but validate_wtf8 = {r:?}")) }
    let mut m = b.to_vec();
    let o = Wtf8Str::from_bytes_mut(&mut m);
    match (&r, &o) { (Ok(()), Ok(s)) if s.as_bytes() == b => {} (Err(a), Err(c)) if a == c => {} _ => return Err(format!("Wtf8Str::from_bytes_mut({b:02x?}) = {o:?} but validate_wtf8 = {r:?}")) }
    Ok(p as u64 * 64 + b.len() as u64)
}
pub fn c07(ctx: &'static Ctx) -> i32 {
    ctx.rule("every byte word up to the length bound over an alphabet with every boundary byte class (all 256 bytes up to length 3), alone and after/before each class of code point; distinct: (valid prefix, length)");
    let all: Vec<u8> = (0..=255).collect();
    for len in 0..=3 { words(ctx, "validate", len, &all, &[], &[], val_check) }
    ctx.note("full alphabet length", 3);
    let l = ctx.pick(5, 6);
    ctx.note("boundary alphabet length", l);
    for len in 4..=l { words(ctx, "validate", len, &BYTES, &[], &[], val_check) }
    let small: [u8; 14] = [0x41, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC2, 0xE0, 0xED, 0xF0, 0xF4];
    words(ctx, "validate", ctx.pick(6, 7), &[0x41, 0x80, 0xA0, 0xBF, 0xED, 0xF0, 0xB0], &[], &[], val_check);
    let pre: [&[u8]; 8] = [b"a", &[0xC2, 0x80], &[0xE0, 0xA0, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xAF, 0xBF], &[0xED, 0xB0, 0x80], &[0xF0, 0x90, 0x80, 0x80], &[0xED, 0x9F, 0xBF]];
    for p in pre { words(ctx, "validate", 4, &small, p, &[], val_check); words(ctx, "validate", 3, &BYTES, p, b"z", val_check); for q in pre { let b = [p, q].concat(); words(ctx, "validate", ctx.pick(2, 3), &BYTES, &b, &[], val_check) } }
    // every code point, in generalised UTF-8, between every pair of neighbours
    let suf: [&[u8]; 5] = [b"", b"z", &[0xED, 0xB0, 0x80], &[0xED, 0xBF, 0xBF], &[0xED, 0xA0, 0x80]];
    let n = 0x110000usize / 4096;
    for p in pre.iter().copied().chain([&b""[..], &[0xED, 0xA0, 0x80, 0xED, 0xA0, 0x80]]) { for s in suf {
        par(n, |k| ctx.case(|| format!("validate every code point {:#x}.. between {p:02x?} and {s:02x?}", k * 4096), || {
            let mut w = vec![]; let mut h = 0u64;
            for c in (k * 4096) as u32..((k + 1) * 4096) as u32 {
                w.clear(); w.extend_from_slice(p);
                match c { 0..=0x7F => w.push(c as u8), 0x80..=0x7FF => w.extend([0xC0 | (c >> 6) as u8, 0x80 | (c & 0x3F) as u8]), 0x800..=0xFFFF => w.extend([0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8]), _ => w.extend([0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 0x3F) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8]) }
                w.extend_from_slice(s);
                h = h.wrapping_mul(31).wrapping_add(val_check(&w)?);
            }
            ctx.steps(4096); ctx.more(4095); Ok(h)
        }));
    } }
    // every pair of bytes inside every pair of neighbours
    for p in pre { for s in suf { for len in 1..=2 { words(ctx, "validate", len, &all, p, s, val_check) } } }
    // three encoded surrogates in a row, every kind of separation
    words(ctx, "validate", 3, &[0xA0, 0xAF, 0xB0, 0xBF, 0x9F, 0x80], &[0xED, 0xA0, 0x80, 0xED], &[0xED, 0xB0, 0x80], val_check);
    // long strings: every short word at every offset
    long_words(ctx, "validate", 3, &small, &[1, 2, 3, 4, 5, 6], &[0, 1, 16, 64], filler, val_check);
    long_words(ctx, "validate after a lead", 3, &[0x41, 0x80, 0xB0, 0xA0, 0xED], &[1, 2, 3, 4], &[0, 1, 16, 64], |o, k| { let mut v = filler(o, k); v.extend([0xED, 0xA0, 0x80]); v }, val_check);
    ctx.finish("model_checking")
}

// ------------------------------------------------------------------ C08
fn to_wtf8(u: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for c in cps(u) { match c { 0..=0x7F => o.push(c as u8), 0x80..=0x7FF => o.extend([0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]), 0x800..=0xFFFF => o.extend([0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]), _ => o.extend([0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]) } }
    o
}
/// Code points of potentially ill-formed UTF-16.
fn cps(u: &[u16]) -> Vec<u32> {
    let mut o = vec![]; let mut i = 0;
    while i < u.len() {
        if u[i] & 0xFC00 == 0xD800 && i + 1 < u.len() && u[i + 1] & 0xFC00 == 0xDC00 { o.push(0x10000 + (((u[i] & 0x3FF) as u32) << 10) + (u[i + 1] & 0x3FF) as u32); i += 2 } else { o.push(u[i] as u32); i += 1 }
    }
    o
}
fn units(c: u32) -> Vec<u16> { if c < 0x10000 { vec![c as u16] } else { let x = c - 0x10000; vec![0xD800 | (x >> 10) as u16, 0xDC00 | (x & 0x3FF) as u16] } }
/// Byte offset -> unit offset, for each code point boundary.
fn bounds(u: &[u16]) -> Vec<(usize, usize)> { let mut v = vec![(0, 0)]; let (mut b, mut k) = (0, 0); for c in cps(u) { b += match c { 0..=0x7F => 1, 0x80..=0x7FF => 2, 0x800..=0xFFFF => 3, _ => 4 }; k += units(c).len(); v.push((b, k)) } v }
fn same(op: &str, got: &Wtf8Str, want: &[u16]) -> Result<(), String> {
    let b = to_wtf8(want);
    if got.as_bytes() != b { return Err(format!("{op}: bytes {:02x?}, expected {b:02x?} ({want:04x?})", got.as_bytes())) }
    Ok(())
}
fn hsh<T: std::hash::Hash + ?Sized>(t: &T) -> u64 { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn lossy(u: &[u16]) -> String { cps(u).into_iter().map(|c| char::from_u32(c).unwrap_or('\u{FFFD}')).collect() }
/// Everything that can be observed about one string.
fn observe(s: &Wtf8String, u: &[u16]) -> Result<u64, String> {
    let e = |c: bool, w: &str| if c { Ok(()) } else { Err(format!("{w} is wrong for {u:04x?}")) };
    same("content", s, u)?;
    let c = cps(u); let b = to_wtf8(u);
    e(s.len() == b.len(), "len")?; e(s.is_empty() == u.is_empty(), "is_empty")?;
    e(s.codepoints().map(|c| c.to_u32()).eq(c.iter().copied()), "codepoints")?;
    let mut it = s.codepoints(); let bs = bounds(u);
    for k in 0..=c.len() {
        let (lo, hi) = it.size_hint(); let left = c.len() - k;
        e(lo <= left && hi.map_or(true, |h| left <= h), "codepoints size_hint")?;
        same("codepoints().as_str()", it.as_str(), &u[bs[k].1..])?;
        e(it.next().map(|c| c.to_u32()) == c.get(k).copied(), "codepoints step")?;
    }
    e(it.next().is_none(), "codepoints end")?;
    e(s.encode_wide().eq(u.iter().copied()), "encode_wide")?;
    let mut it = s.encode_wide();
    for k in 0..=u.len() { let (lo, hi) = it.size_hint(); let left = u.len() - k; e(lo <= left && hi.map_or(true, |h| left <= h), "encode_wide size_hint")?; e(it.next() == u.get(k).copied(), "encode_wide step")?; }
    e(it.next().is_none(), "encode_wide end")?;
    let st = String::from_utf16(u).ok();
    e(s.as_str() == st.as_deref(), "as_str")?;
    match (s.clone().into_string(), &st) { (Ok(a), Some(b)) => e(a == *b, "into_string")?, (Err(w), None) => same("into_string Err", &w, u)?, _ => e(false, "into_string")? }
    let ls = lossy(u);
    e(s.to_string_lossy() == ls, "to_string_lossy")?; e(s.clone().into_string_lossy() == ls, "into_string_lossy")?;
    e(format!("{}", &**s) == ls, "Display")?;
    let dbg = { let mut d = String::from("\""); for c in &c { match char::from_u32(*c) { Some(ch) => d.extend(ch.escape_debug()), None => d.push_str(&format!("\\u{{{c:x}}}")) } } d.push('"'); d };
    e(format!("{s:?}") == dbg && format!("{:?}", &**s) == dbg, "Debug")?;
    e(s.is_ascii() == u.iter().all(|x| *x < 128), "is_ascii")?;
    for p in 0..b.len() { e(s.ascii_byte_at(p) == if b[p] < 128 { b[p] } else { 0xFF }, "ascii_byte_at")?; }
    e(guard(|| s.ascii_byte_at(b.len())).is_err(), "ascii_byte_at past the end")?;
    e(hsh(s) == hsh(&**s), "hash of owned and borrowed")?;
    e(s == &**s && &**s == s && *s == **s && **s == *s, "equality of owned and borrowed")?;
    if let Some(t) = &st { e(*s == **t && **s == **t && *s == &**t, "equality with str")?; same("From<String>", &Wtf8String::from(t.clone()), u)?; same("from_borrowed", &Wtf8String::from_borrowed(t), u)?; same("Wtf8Str::new", Wtf8Str::new(t), u)?; same("from_string", &Wtf8String::from_string(t.clone()), u)? } else { e(*s != *ls && **s != *ls, "equality with str")? }
    e(s.clone().into_bytes() == b, "into_bytes")?;
    let w = Wtf8String::from_bytes(b.clone()).map_err(|e| e.to_string())?; e(w == *s, "from_bytes")?;
    // slicing at every pair of byte positions
    for i in 0..=b.len() + 1 {
        let bi = bs.iter().find(|x| x.0 == i);
        match (guard(|| s[i..].to_owned()), bi) { (Ok(w), Some(x)) => same("slice from", &w, &u[x.1..])?, (Err(_), None) => {} _ => e(false, &format!("slice {i}.."))? }
        match (guard(|| s[..i].to_owned()), bi) { (Ok(w), Some(x)) => same("slice to", &w, &u[..x.1])?, (Err(_), None) => {} _ => e(false, &format!("slice ..{i}"))? }
        for j in 0..=b.len() + 1 {
            let bj = bs.iter().find(|x| x.0 == j);
            match (guard(|| s[i..j].to_owned()), bi, bj) { (Ok(w), Some(x), Some(y)) if i <= j => same("slice", &w, &u[x.1..y.1])?, (Err(_), Some(_), Some(_)) if i > j => {} (Err(_), None, _) | (Err(_), _, None) => {} _ => e(false, &format!("slice {i}..{j}"))? }
        }
    }
    same("full slice", &s[..], u)?;
    Ok(fnv(&b))
}
/// The part of `observe` that does not look for panics.
fn light(s: &Wtf8String, u: &[u16]) -> Result<(), String> {
    let e = |c: bool, w: &str| if c { Ok(()) } else { Err(format!("{w} is wrong for {u:04x?}")) };
    same("content", s, u)?;
    let (c, b, ls) = (cps(u), to_wtf8(u), lossy(u));
    e(s.len() == b.len(), "len")?; e(s.codepoints().map(|c| c.to_u32()).eq(c.iter().copied()), "codepoints")?; e(s.encode_wide().eq(u.iter().copied()), "encode_wide")?;
    let st = String::from_utf16(u).ok(); e(s.as_str() == st.as_deref(), "as_str")?; e(s.to_string_lossy() == ls && s.clone().into_string_lossy() == ls && format!("{}", &**s) == ls, "lossy conversion")?;
    e(s.is_ascii() == u.iter().all(|x| *x < 128), "is_ascii")?;
    e(Wtf8String::from_bytes(b.clone()).map_or(false, |w| w == *s), "from_bytes")?; same("slice", &s[..b.len()], u)
}
fn long_observe(s: &Wtf8String, u: &[u16]) -> Result<(), String> {
    light(s, u)?;
    let c = cps(u);
    let dbg = { let mut d = String::from("\""); for c in &c { match char::from_u32(*c) { Some(ch) => d.extend(ch.escape_debug()), None => d.push_str(&format!("\\u{{{c:x}}}")) } } d.push('"'); d };
    if format!("{s:?}") != dbg { return Err(format!("Debug is wrong for {u:04x?}")) }
    match (s.clone().into_string(), String::from_utf16(u)) { (Ok(a), Ok(b)) if a == b => {} (Err(w), Err(_)) => same("into_string Err", &w, u)?, _ => return Err(format!("into_string is wrong for {u:04x?}")) }
    let z: Wtf8String = u.iter().map(|c| Codepoint::from_u32(*c as u32).unwrap()).collect(); same("collect", &z, u)?;
    let z: Wtf8String = c.iter().map(|c| Codepoint::from_u32(*c).unwrap()).collect(); same("collect", &z, u)?;
    let mut z = Wtf8String::new(); for x in u { z.push(Codepoint::from_u32(*x as u32).unwrap()) } same("push", &z, u)?;
    if hsh(s) != hsh(&**s) || hsh(s) != hsh(&z) || *s != z { return Err(format!("hash or equality is wrong for {u:04x?}")) }
    Ok(())
}
const CPS: [u32; 9] = [0x61, 0x5A, 0xE9, 0x65E5, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x10000];
type Op = (String, Box<dyn Fn(&mut Wtf8String) + Sync + Send>, Box<dyn Fn(&[u16]) -> Vec<u16> + Sync + Send>);
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    fn add(v: &mut Vec<Op>, n: String, f: impl Fn(&mut Wtf8String) + Sync + Send + 'static, m: impl Fn(&[u16]) -> Vec<u16> + Sync + Send + 'static) { v.push((n, Box::new(f), Box::new(m))) }
    fn app(x: Vec<u16>) -> impl Fn(&[u16]) -> Vec<u16> + Sync + Send { move |u| [u, &x].concat() }
    for c in CPS { add(&mut v, format!("push U+{c:04X}"), move |s| s.push(Codepoint::from_u32(c).unwrap()), app(units(c))); if let Some(ch) = char::from_u32(c) { add(&mut v, format!("push_char {ch:?}"), move |s| s.push_char(ch), app(units(c))) } }
    for t in ["", "a", "é\u{10000}"] { add(&mut v, format!("push_str {t:?}"), move |s| s.push_str(t), app(t.encode_utf16().collect())) }
    let frag: Vec<Vec<u16>> = vec![vec![], vec![0xDC00], vec![0xDFFF, 0x61], vec![0xD800], vec![0xDC00, 0xD800], vec![0xD83D, 0xDE00], vec![0xDC00, 0xDC00], vec![0x61, 0xDC00]];
    for f in frag {
        let (g, g2, g3) = (f.clone(), f.clone(), f.clone());
        add(&mut v, format!("push_wtf8 {f:04x?}"), move |s| { let o = Wtf8String::from_wide(&g); s.push_wtf8(&o) }, app(f.clone()));
        add(&mut v, format!("extend {f:04x?}"), move |s| s.extend(cps(&g2).into_iter().map(|c| Codepoint::from_u32(c).unwrap())), app(f.clone()));
        add(&mut v, format!("extend units {f:04x?}"), move |s| s.extend(g3.iter().map(|c| Codepoint::from_u32(*c as u32).unwrap())), app(f.clone()));
    }
    fn idt(u: &[u16]) -> Vec<u16> { u.to_vec() }
    add(&mut v, "clear".into(), |s| s.clear(), |_| vec![]);
    fn low(u: &[u16]) -> Vec<u16> { u.iter().map(|c| if (65..=90).contains(c) { c + 32 } else { *c }).collect() }
    fn up(u: &[u16]) -> Vec<u16> { u.iter().map(|c| if (97..=122).contains(c) { c - 32 } else { *c }).collect() }
    add(&mut v, "make_ascii_lowercase".into(), |s| s.make_ascii_lowercase(), low); add(&mut v, "make_ascii_uppercase".into(), |s| s.make_ascii_uppercase(), up);
    add(&mut v, "to_ascii_lowercase".into(), |s| *s = s.to_ascii_lowercase(), low); add(&mut v, "to_ascii_uppercase".into(), |s| *s = s.to_ascii_uppercase(), up);
    add(&mut v, "wide".into(), |s| *s = Wtf8String::from_wide(&s.encode_wide().collect::<Vec<_>>()), idt);
    add(&mut v, "collect codepoints".into(), |s| *s = s.codepoints().collect(), idt);
    add(&mut v, "collect units as codepoints".into(), |s| *s = s.encode_wide().map(|c| Codepoint::from_u32(c as u32).unwrap()).collect(), idt);
    add(&mut v, "box".into(), |s| *s = Wtf8String::from_box(std::mem::take(s).into_box()), idt);
    add(&mut v, "str box".into(), |s| *s = Wtf8String::from_box((**s).into_box()), idt);
    add(&mut v, "arc".into(), |s| *s = (*(**s).into_arc()).to_owned(), idt); add(&mut v, "rc".into(), |s| *s = Wtf8String::from(&*(**s).into_rc()), idt);
    add(&mut v, "empty box".into(), |s| *s = Wtf8String::from_box(Wtf8Str::empty_box()), |_| vec![]);
    add(&mut v, "lossy".into(), |s| *s = Wtf8String::from(std::mem::take(s).into_string_lossy()), |u| lossy(u).encode_utf16().collect());
    add(&mut v, "into_string or back".into(), |s| *s = match std::mem::take(s).into_string() { Ok(t) => Wtf8String::from(t), Err(w) => w }, idt);
    add(&mut v, "bytes".into(), |s| *s = Wtf8String::from_bytes(std::mem::take(s).into_bytes()).unwrap(), idt);
    add(&mut v, "cow".into(), |s| { let c: Cow<Wtf8Str> = Cow::from(&**s); *s = c.into_owned() }, idt);
    add(&mut v, "shrink/reserve".into(), |s| { s.shrink_to_fit(); s.reserve(1); s.reserve_exact(2); s.try_reserve(3).unwrap(); s.try_reserve_exact(2).unwrap(); s.shrink_to(1); assert!(s.capacity() >= s.len()) }, idt);
    for t in ["", "abc", "日本語日本語日本語"] { add(&mut v, format!("clone_into over {t:?}"), move |s| { let mut o = Wtf8String::from_borrowed(t); Wtf8Str::clone_into(s, &mut o); *s = o }, idt) }
    add(&mut v, "self append".into(), |s| { let c = s.clone(); s.push_wtf8(&c) }, |u| [u, u].concat());
    v
}
pub fn c08(ctx: &'static Ctx) -> i32 {
    let maxu = ctx.pick(4, 5);
    ctx.note("max code units per state", maxu); ctx.note("max operations", "unbounded (closed set of states)");
    ctx.rule("breadth-first search: states are string contents (UTF-16) up to the unit bound, reached by executing every operation from every state on the real string; every observer runs in every state; all pairs of short states are compared; distinct: hash of bytes");
    ctx.assume("ordering of WTF-8 strings is by code point");
    // code points
    for b in 0..0x111u32 { ctx.case(|| format!("Codepoint block {b:#x}"), || {
        for c in b * 4096..(b + 1) * 4096 {
            let k = Codepoint::from_u32(c);
            if k.is_some() != (c <= 0x10FFFF) { return Err(format!("from_u32({c:#x})")) }
            let Some(k) = k else { continue };
            if k.to_u32() != c || k.to_char() != char::from_u32(c) || k.to_char_lossy() != char::from_u32(c).unwrap_or('\u{FFFD}') || format!("{k:?}") != format!("U+{c:04X}") { return Err(format!("accessors of {c:#x}")) }
            if let Some(ch) = char::from_u32(c) { if Codepoint::from_char(ch) != k || Codepoint::from(ch) != k || !(k == ch) { return Err(format!("from_char {c:#x}")) } }
            let mut s = Wtf8String::new(); s.push(k);
            same("push", &s, &units(c))?;
            if !s.codepoints().map(|x| x.to_u32()).eq([c]) || !s.encode_wide().eq(units(c)) { return Err(format!("decode {c:#x}")) }
        }
        ctx.more(4095); ctx.steps(4096); Ok(b as u64)
    }) }
    ctx.case(|| "decode_surrogate, every pair".into(), || {
        for c in 0xD800u32..0xE000 { let b = to_wtf8(&[c as u16]); if decode_surrogate(b[1], b[2]) as u32 != c { return Err(format!("decode_surrogate {c:#x}")) } }
        for a in 0xD800u16..0xDC00 { for b in 0xDC00u16..0xE000 { if decode_surrogate_pair(a, b) as u32 != cps(&[a, b])[0] { return Err(format!("decode_surrogate_pair {a:#x} {b:#x}")) } } }
        // joining for every pair of halves
        for a in 0xD800u16..0xDC00 { for b in [0xDC00u16, 0xDC01, 0xDDFF, 0xDFFF, 0xDC3F, 0xDC40] {
            let (x, y) = (Wtf8String::from_wide(&[a]), Wtf8String::from_wide(&[b]));
            let mut z = x.clone(); z.push_wtf8(&y); same("push_wtf8", &z, &[a, b])?;
            let mut z = x.clone(); z.push(Codepoint::from_u32(b as u32).unwrap()); same("push", &z, &[a, b])?;
        } }
        for b in 0xDC00u16..0xE000 { let mut z = Wtf8String::from_wide(&[0x61, 0xDABC]); z.push_wtf8(&Wtf8String::from_wide(&[b, 0x62])); same("push_wtf8", &z, &[0x61, 0xDABC, b, 0x62])? }
        ctx.steps(1 << 20); Ok(1)
    });
    // every code point: everything observable about it alone, and compared with those close to it
    const BLK: u32 = 0x400;
    par((0x110000 / BLK) as usize, |k| {
        let first = k as u32 * BLK;
        ctx.case(|| format!("every code point in {first:#x}..{:#x}", first + BLK), || {
            let f = |x: &[u16]| x.iter().map(|c| if (97..=122).contains(c) { c - 32 } else { *c }).collect::<Vec<_>>();
            let g = |x: &[u16]| x.iter().map(|c| if (65..=90).contains(c) { c + 32 } else { *c }).collect::<Vec<_>>();
            for c in first..first + BLK {
                let u = units(c); let mut s = Wtf8String::new(); s.push(Codepoint::from_u32(c).unwrap());
                if c < 0x3000 || c & 0x3F == 0 || c & 0x3F == 0x3F || (0xD700..0xE100).contains(&c) || ctx.thorough() { observe(&s, &u)?; } else { light(&s, &u)? }
                same("to_ascii_uppercase", &s.to_ascii_uppercase(), &f(&u))?; same("to_ascii_lowercase", &s.to_ascii_lowercase(), &g(&u))?;
                let mut z = s.clone(); z.make_ascii_uppercase(); same("make_ascii_uppercase", &z, &f(&u))?; let mut z = s.clone(); z.make_ascii_lowercase(); same("make_ascii_lowercase", &z, &g(&u))?;
                let near: Vec<u32> = if c < 0x180 { (0..0x180).collect() } else { vec![c, c ^ 1, c ^ 0x20, c ^ 0x40, c ^ 0x400, c & 0x7F, c & 0xFF, c & 0xFFFF, c + 1, c.saturating_sub(0x10000)] };
                for d in near {
                    if d > 0x10FFFF { continue }
                    let v = units(d); let t = Wtf8String::from_wide(&v);
                    let bad = |w: &str| Err(format!("{w} of U+{c:04X} and U+{d:04X}"));
                    if (s == t) != (c == d) || (*s == *t) != (c == d) { return bad("equality") }
                    if s.cmp(&t) != c.cmp(&d) || (*s).cmp(&*t) != c.cmp(&d) || s.partial_cmp(&t) != Some(c.cmp(&d)) || (*s).partial_cmp(&*t) != Some(c.cmp(&d)) { return bad("order") }
                    if s.eq_ignore_ascii_case(&t) != (f(&u) == f(&v)) { return bad("eq_ignore_ascii_case") }
                    if c == d && hsh(&s) != hsh(&t) { return bad("hash") }
                    ctx.steps(1);
                }
            }
            ctx.more(BLK as u64 - 1); Ok(k as u64)
        });
    });
    // BFS
    let ops = ops();
    ctx.note("operations", ops.len());
    let mut seen: HashMap<Vec<u16>, (String, Wtf8String)> = HashMap::new();
    seen.insert(vec![], ("Wtf8String::new()".into(), Wtf8String::new()));
    let mut front = vec![Vec::<u16>::new()]; let mut depth = 0;
    while !front.is_empty() && !ctx.stopped() {
        depth += 1;
        let found = std::sync::Mutex::new(Vec::new());
        par(front.len(), |k| {
            let u = &front[k]; let (hist, s0) = &seen[u];
            ctx.state(hash_of(u));
            ctx.case(|| format!("{hist}"), || observe(s0, u));
            for (n, f, m) in &ops {
                let want = m(u);
                if want.len() > maxu * 2 { continue }
                ctx.case(|| format!("{hist}; {n}"), || {
                    let mut s = s0.clone();
                    f(&mut s); ctx.steps(1);
                    same(n, &s, &want)?;
                    if want.len() <= maxu && !seen.contains_key(&want) { found.lock().unwrap().push((want.clone(), format!("{hist}; {n}"), s)) }
                    Ok(hash_of(&want))
                });
            }
            let b = to_wtf8(u); let bs = bounds(u);
            for p in 0..=b.len() + 2 {
                ctx.case(|| format!("{hist}; truncate {p}"), || {
                    let mut s = s0.clone();
                    let r = guard(|| s.truncate(p)); ctx.steps(1);
                    match (r, bs.iter().find(|x| x.0 == p)) { (Ok(()), Some(x)) => same("truncate", &s, &u[..x.1])?, (Err(_), None) => same("failed truncate", &s, u)?, (r, _) => return Err(format!("truncate({p}) = {r:?}")) }
                    Ok(p as u64)
                });
            }
        });
        let mut next: Vec<_> = found.into_inner().unwrap(); next.sort(); 
        front.clear();
        for (u, h, s) in next { if !seen.contains_key(&u) { seen.insert(u.clone(), (h, s)); front.push(u) } }
    }
    ctx.note("breadth-first levels", depth);
    // long strings
    let offs = offsets(ctx.pick(70, 140)); let fills: [&[u16]; 5] = [&[0x78], &[0xE9], &[0x65E5], &[0xD83D, 0xDE00], &[0xD801]];
    const LONG: [u16; 8] = [0x41, 0xE9, 0x65E5, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x22];
    par(offs.len() * fills.len(), |k| {
        let (off, f) = (offs[k / fills.len()], fills[k % fills.len()]);
        let pre: Vec<u16> = f.iter().copied().cycle().take(off).collect();
        for l in 0..=(if off > 256 { 1 } else { 2 }) { for i in 0..LONG.len().pow(l as u32) { for t in [0usize, 1, 17, 66] {
            let mut w = vec![]; word(i, l, &LONG, &mut w);
            ctx.case(|| format!("long string: {off} units of {f:04x?}, {w:04x?}, {t} units of the filler"), || {
                let mut u = pre.clone(); u.extend(&w); u.extend(f.iter().copied().cycle().take(t));
                let s = Wtf8String::from_wide(&u);
                long_observe(&s, &u)?; ctx.steps(1);
                if off > 300 { return Ok(hash_of(&u)) }
                let bs = bounds(&u);
                // the same string from its parts, cut at every code unit
                for cut in off.saturating_sub(2)..=(off + l + 2).min(u.len()) {
                    let (a, b) = (Wtf8String::from_wide(&u[..cut]), Wtf8String::from_wide(&u[cut..]));
                    let mut z = a.clone(); z.push_wtf8(&b); same("push_wtf8", &z, &u)?;
                    let mut z = a.clone(); z.extend(u[cut..].iter().map(|c| Codepoint::from_u32(*c as u32).unwrap())); same("extend", &z, &u)?;
                    let mut z = a.clone(); z.extend(b.codepoints()); same("extend", &z, &u)?;
                    ctx.steps(3);
                    // strings that differ only from here on
                    if cut < u.len() { let mut v = u.clone(); v[cut] ^= 1; let t = Wtf8String::from_wide(&v); let o = cps(&u).cmp(&cps(&v)); if s == t || *s == *t || s.cmp(&t) != o || (*s).cmp(&*t) != o { return Err(format!("comparison of {u:04x?} and {v:04x?}")) }
                        let fold = |x: &[u16]| x.iter().map(|c| if (97..=122).contains(c) { c - 32 } else { *c }).collect::<Vec<_>>();
                        for x in [1u16, 0x20] { let mut v = u.clone(); v[cut] ^= x; let t = Wtf8String::from_wide(&v); if s.eq_ignore_ascii_case(&t) != (fold(&u) == fold(&v)) { return Err(format!("eq_ignore_ascii_case {u:04x?} {v:04x?}")) } } }
                    if a == s && cut < u.len() || cut < u.len() && (a.cmp(&s) != std::cmp::Ordering::Less) != (cps(&u[..cut]) >= cps(&u)) { return Err(format!("comparison of {u:04x?} with its first {cut} units")) }
                }
                for x in &bs { if x.1 + 3 >= off && x.1 <= off + l + 3 {
                    same("slice from", &s[x.0..], &u[x.1..])?; same("slice to", &s[..x.0], &u[..x.1])?;
                    let mut z = s.clone(); z.truncate(x.0); same("truncate", &z, &u[..x.1])?;
                    ctx.steps(3);
                } }
                if t == 1 || t == 66 { for (n, f, m) in &ops { let mut z = s.clone(); f(&mut z); ctx.steps(1); same(n, &z, &m(&u))? } }
                let mut z = Wtf8String::from_wide(&pre); Wtf8Str::clone_into(&s, &mut z); same("clone_into", &z, &u)?;
                Ok(hash_of(&u))
            });
        } } }
    });
    // pairs
    let lim = ctx.pick(2, 3);
    let short: Vec<(&Vec<u16>, &Wtf8String)> = { let mut v: Vec<_> = seen.iter().filter(|(u, _)| u.len() <= lim).map(|(u, (_, s))| (u, s)).collect(); v.sort(); v };
    ctx.note("pairwise compared states", short.len());
    par(short.len(), |i| {
        let (u, s) = short[i];
        ctx.case(|| format!("compare {u:04x?} with every short state"), || {
            for (v, t) in &short {
                let (a, b) = (cps(u), cps(v));
                if (s == *t) != (u == *v) || (**s == ***t) != (u == *v) { return Err(format!("{u:04x?} == {v:04x?}")) }
                if s.cmp(t) != a.cmp(&b) || (**s).cmp(&***t) != a.cmp(&b) || s.partial_cmp(t) != Some(a.cmp(&b)) || (**s).partial_cmp(&***t) != Some(a.cmp(&b)) { return Err(format!("order of {u:04x?} and {v:04x?}")) }
                if u == *v && hsh(s) != hsh(*t) { return Err(format!("hash of {u:04x?}")) }
                let f = |x: &[u16]| x.iter().map(|c| if (97..=122).contains(c) { c - 32 } else { *c }).collect::<Vec<_>>();
                if s.eq_ignore_ascii_case(t) != (f(u) == f(v)) { return Err(format!("eq_ignore_ascii_case {u:04x?} {v:04x?}")) }
                let mut c = s.clone(); c.push_wtf8(t);
                same("push_wtf8", &c, &[&u[..], &v[..]].concat())?;
                let mut c = (*t).clone(); Wtf8Str::clone_into(s, &mut c); same("clone_into", &c, u)?; let mut c = (*t).clone(); <Wtf8Str as ToOwned>::clone_into(s, &mut c); same("ToOwned::clone_into", &c, u)?; let mut c = (*t).clone(); c.clone_from(s); same("clone_from", &c, u)?;
            }
            ctx.more(short.len() as u64 - 1); ctx.steps(short.len() as u64);
            Ok(hash_of(u))
        });
    });
    ctx.finish("model_checking")
}
