//! C14: layouts of branches and switches.
use super::c01::{read, same, write};
use crate::engine::*;
use crate::parse::{self, Insn};
use crate::raw::{self, u2, u4, RawPool};
use crate::v::*;
use crate::{abs, conc, gen};
use coffer::clazz::Class;
use coffer::prelude::*;

/// Program items; targets are item indices.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum It { Fill(usize), Jmp(i64, usize), Jsr(usize), Tsw(usize, i32, Vec<usize>), Lsw(usize, Vec<(i32, usize)>), End }
use It::*;
/// Filler of exactly n bytes: six-byte instructions and no-ops.
fn fill(n: usize, out: &mut Vec<Instruction>) { for _ in 0..n / 6 { out.push(Instruction::IntIncrement(256, 1)) } for _ in 0..n % 6 { out.push(Instruction::NoOp) } }
pub fn build(p: &[It]) -> Code {
    let l = |t: &usize| Label(*t as u32 * 3 + 1);
    let mut code = vec![];
    for (i, x) in p.iter().enumerate() {
        code.push(Instruction::Label(l(&i)));
        match x {
            Fill(n) => fill(*n, &mut code), Jmp(o, t) => code.push(Instruction::Jump(conc::jump_of(*o), l(t))), Jsr(t) => code.push(Instruction::Jsr(l(t))), End => code.push(Instruction::Return(None)),
            Tsw(d, low, a) => code.push(Instruction::TableSwitch { default: l(d), low: *low, offsets: a.iter().map(l).collect() }), Lsw(d, a) => code.push(Instruction::LookupSwitch { default: l(d), table: a.iter().map(|(k, t)| (*k, l(t))).collect() }),
        }
    }
    Code { max_stack: 2, max_locals: 300, code, catches: vec![], attrs: vec![] }
}
pub fn class_of(c: Code) -> Class { let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(c)); cl }
/// The smallest layout: (pc of every item, total size, number of wide branches).
pub fn layout(p: &[It]) -> (Vec<i64>, i64, usize) {
    let mut wide = vec![false; p.len()];
    loop {
        let mut pc = vec![]; let mut at = 0i64;
        for (i, x) in p.iter().enumerate() {
            pc.push(at);
            let pad = (4 - (at + 1) % 4) % 4;
            at += match x { Fill(n) => *n as i64, End => 1, Jsr(_) | Jmp(167, _) => if wide[i] { 5 } else { 3 }, Jmp(..) => if wide[i] { 8 } else { 3 }, Tsw(_, _, a) => 13 + pad + 4 * a.len() as i64, Lsw(_, a) => 9 + pad + 8 * a.len() as i64 };
        }
        let mut again = false;
        for (i, x) in p.iter().enumerate() { if let Jsr(t) | Jmp(_, t) = x { let d = pc[*t] - pc[i]; if !wide[i] && !(-32768..=32767).contains(&d) { wide[i] = true; again = true } } }
        if !again { return (pc, at, wide.iter().filter(|x| **x).count()) }
    }
}
fn neg(o: i64) -> i64 { match o { 198 => 199, 199 => 198, o => ((o - 153) ^ 1) + 153 } }
/// Does the decoded bytecode do what the program says?
pub fn matches(p: &[It], d: &[Insn], len: i64) -> Result<(), String> { match_pcs(p, d, len).map(|_| ()) }
/// Where the items ended up, and the end of the code.
pub fn match_pcs(p: &[It], d: &[Insn], len: i64) -> Result<Vec<i64>, String> {
    let mut k = 0; let mut pcs = vec![]; let mut refs: Vec<(usize, i64, usize)> = vec![];
    let pc_at = |k: usize| d.get(k).map_or(len, |x| x.pc as i64);
    let iinc = N("iinc", vec![I(256), I(1)]); let nop = gen::opn(0);
    for (i, x) in p.iter().enumerate() {
        pcs.push(pc_at(k));
        if let Fill(n) = x {
            for j in 0..n / 6 + n % 6 { let want = if j < n / 6 { &iinc } else { &nop }; if d.get(k).map(|x| &x.v) != Some(want) { return Err(format!("item {i}: filler lost, found {:?}", d.get(k))) } k += 1 }
            continue;
        }
        let g = d.get(k).ok_or_else(|| format!("item {i} missing"))?; k += 1;
        let bad = || Err(format!("item {i} {x:?} became {:?} {:?}", g, d.get(k)));
        match (x, &g.v) {
            (End, v) if *v == gen::ret() => {}
            (Jsr(t), N("jsr", a)) => refs.push((i, a[0].i(), *t)),
            (Jmp(o, t), N("jmp", a)) if a[0].i() == *o => refs.push((i, a[1].i(), *t)),
            (Jmp(o, t), N("jmp", a)) if *o != 167 && a[0].i() == neg(*o) => {
                // negated condition around an unconditional branch
                match d.get(k).map(|x| &x.v) { Some(N("jmp", b)) if b[0].i() == 167 => { refs.push((i, b[1].i(), *t)); k += 1; if a[1].i() != pc_at(k) { return Err(format!("item {i} {x:?}: the negated branch leads to {} instead of behind the goto at {}", a[1].i(), pc_at(k))) } } _ => return bad() }
            }
            (Tsw(t, low, arms), N("tsw", a)) if a[1].i() == *low as i64 && a[2].l().len() == arms.len() => { refs.push((i, a[0].i(), *t)); for (x, t) in a[2].l().iter().zip(arms) { refs.push((i, x.i(), *t)) } }
            (Lsw(t, arms), N("lsw", a)) if a[1].l().len() == arms.len() => {
                refs.push((i, a[0].i(), *t));
                let mut s = arms.clone(); s.sort();
                for (x, (key, t)) in a[1].l().iter().zip(&s) { if x.at(0).i() != *key as i64 { return bad() } refs.push((i, x.at(1).i(), *t)) }
            }
            _ => return bad(),
        }
    }
    if k != d.len() { return Err(format!("{} extra instructions", d.len() - k)) }
    for (i, pc, t) in refs { if pc != pcs[t] { return Err(format!("item {i} {:?} leads to pc {pc}, its target is at {}", p[i], pcs[t])) } }
    pcs.push(len);
    Ok(pcs)
}
/// The code attribute of the only method, as bytes.
pub fn code_bytes(b: &[u8]) -> Result<(Vec<u8>, parse::Pool), String> {
    let mut r = parse::Rd::new(b); r.take(8)?;
    let p = parse::Pool::parse(&mut r)?;
    r.take(6)?; let n = r.u2()?; r.take(2 * n as usize)?; if r.u2()? != 0 || r.u2()? != 1 { return Err("shape".into()) }
    r.take(6)?; if r.u2()? != 1 { return Err("shape".into()) }
    if p.s(r.u2()?)? != s("Code") { return Err("shape".into()) }
    r.take(8)?; let n = r.u4()?; Ok((r.take(n as usize)?.to_vec(), p))
}
pub fn check(ctx: &Ctx, p: &[It]) -> Result<u64, String> {
    let (_, size, wide) = layout(p);
    ctx.steps(1); ctx.state(hash_of(&p));
    let bad_range = p.iter().any(|x| matches!(x, Tsw(_, low, a) if a.is_empty() || *low as i64 + a.len() as i64 - 1 > i32::MAX as i64));
    let w = write(&class_of(build(p)));
    if size > 65535 || bad_range { ctx.tag(if bad_range { "impossible switch range" } else { "over the size limit" }); return match w { Err(_) => Ok(1), Ok(_) => Err(format!("written although it needs {size} bytes / bad range {bad_range}")) } }
    let b = w.map_err(|e| format!("{e} (fits in {size} bytes)"))?;
    let (c, pool) = code_bytes(&b)?;
    let d = parse::decode(&c, &pool)?;
    matches(p, &d, c.len() as i64)?;
    ctx.tag(&format!("{wide} wide branches"));
    let v = parse::parse_class(&b)?;
    same("read back", &v, &abs::class(&read(&b)?)?)?; ctx.steps(1);
    Ok(fnv(&b[b.len().saturating_sub(40)..]) ^ fnv(&c[..c.len().min(64)]) ^ c.len() as u64)
}
fn run(ctx: &Ctx, what: &str, progs: Vec<Vec<It>>) {
    ctx.tag_n(what, progs.len() as u64);
    par(progs.len(), |k| ctx.case(|| format!("{:?}", progs[k]), || check(ctx, &progs[k])));
}
fn branch(k: i64, t: usize) -> It { if k == 168 { Jsr(t) } else { Jmp(k, t) } }
fn write_side(ctx: &Ctx) {
    let kinds: Vec<i64> = gen::jumps().into_iter().chain([168]).collect();
    // A: one branch of every kind, both directions, every distance around the limits
    let mut v = vec![];
    for &k in &kinds { for pre in 0..4 {
        let ds: Vec<usize> = (0..12).chain(ctx.pick(32755..32785, 32700..32850)).chain(if pre == 0 { vec![40000, 65520] } else { vec![] }).collect();
        for d in ds { v.push(vec![Fill(pre), branch(k, 3), Fill(d), End]); v.push(vec![Fill(pre), Fill(d), branch(k, 1), End]); }
        v.push(vec![Fill(pre), branch(k, 1), End]);
    } }
    run(ctx, "one branch", v);
    // B: two branches and three fillers; every target; every combination of lengths near the limit
    let big: Vec<usize> = ctx.pick(vec![32756, 32761, 32764, 32766], (32752..=32770).step_by(2).collect());
    let ts: &[usize] = ctx.pick(&[0, 1, 3, 5], &[0, 1, 2, 3, 4, 5]);
    let lens: Vec<usize> = [0, 2].into_iter().chain(big).collect();
    let mut v = vec![];
    for k1 in [167i64, 153, 168] { for k2 in [167i64, 199, 168] { for &t1 in ts { for &t2 in ts { for &a in &lens { for &b in &lens { for &c in &lens {
        if [a, b, c].iter().filter(|x| **x > 10).count() > 2 || a + b + c < 30000 { continue }
        v.push(vec![Fill(a), branch(k1, t1), Fill(b), branch(k2, t2), Fill(c), End]);
    } } } } } } }
    run(ctx, "two branches", v);
    // C: three or four branches over a common gap: widening one pushes the next over the limit
    let mut v = vec![];
    for n in 2..=ctx.pick(4usize, 6) { for d in 32767usize.saturating_sub(5 * n + 3)..=32769 { for kind in 0..3usize.pow(n as u32) {
        // n branches in front, all to the end; total distance d from the last one
        let ks: Vec<i64> = (0..n).map(|i| [167, 153, 168][kind / 3usize.pow(i as u32) % 3]).collect();
        if !ctx.thorough() && n == 4 && d % 2 == 1 { continue }
        let mut p: Vec<It> = ks.iter().map(|k| branch(*k, n + 1)).collect(); p.push(Fill(d)); p.push(End); v.push(p);
        let mut p = vec![Fill(d)]; p.extend(ks.iter().map(|k| branch(*k, 0))); p.push(End); v.push(p);
    } } }
    for d in 32750..=ctx.pick(32768usize, 32775) { for e in 32740..=ctx.pick(32760usize, 32770) { for k in [167i64, 154] {
        // crossing: first jumps forward over the second, the second back over the first
        v.push(vec![Fill(e), branch(k, 5), Fill(2), branch(k, 0), Fill(d - 8), End]); v.push(vec![Fill(5), branch(k, 5), Fill(d), branch(k, 0), Fill(0), End]);
    } } }
    run(ctx, "cascades", v);
    // C2: chains: each branch has just enough room until the next one has been widened
    let mut v = vec![];
    let mut shapes = vec![]; for n in 2..=ctx.pick(6usize, 9) { for step in 0..=9usize { for trig in 0..6usize { shapes.push((n, step, trig)) } } }
    for n in (7..=40).chain([48, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000]) { for step in [2, 5] { for trig in [2, 3, 4] { if n < 41 || trig == 3 { shapes.push((n, step, trig)) } } } }
    for (n, step, trig) in shapes {
        let words: Vec<Vec<i64>> = if n > 9 { [167, 153, 168, 198].map(|k| vec![k; n]).to_vec() } else if n <= ctx.pick(4, 6) { (0..3usize.pow(n as u32)).map(|w| (0..n).map(|i| [167, 153, 168][w / 3usize.pow(i as u32) % 3]).collect()).collect() } else { (0..9).map(|w| (0..n).map(|i| [167, 199, 168][if i % 2 == 0 { w / 3 } else { w % 3 }]).collect()).collect() };
        // distance of branch i (from the trigger, j steps away): 32767 - step * j, the trigger's around the limit
        let dist = |j: usize| if j == 0 { 32765 + trig } else { 32767 - step * (j - 1) };
        for ks in words {
            // forward: the last branch is the trigger
            let at: Vec<usize> = (0..n).map(|i| 3 * i + dist(n - 1 - i)).collect();
            let mut ts = at.clone(); ts.sort(); ts.dedup();
            let mut p: Vec<It> = (0..n).map(|i| branch(ks[i], n + 1 + ts.iter().position(|t| *t == at[i]).unwrap())).collect();
            p.push(Fill(ts[0] - 3 * n)); for w in ts.windows(2) { p.push(Fill(w[1] - w[0])) } p.push(End);
            v.push(p);
            // backward: the first branch is the trigger; targets in front
            let base = 32900; let at: Vec<usize> = (0..n).map(|i| base + 3 * i - dist(i)).collect();
            let mut ts = at.clone(); ts.sort(); ts.dedup();
            let mut p = vec![Fill(ts[0])]; for w in ts.windows(2) { p.push(Fill(w[1] - w[0])) } p.push(Fill(base - ts[ts.len() - 1]));
            for i in 0..n { p.push(branch(ks[i], 1 + ts.iter().position(|t| *t == at[i]).unwrap())) } p.push(End);
            v.push(p);
        }
    }
    run(ctx, "chains of widenings", v);
    // D: switches at every alignment, arms everywhere, also behind a branch whose size depends on the distance
    let mut v = vec![];
    for pre in 0..4 { for n in 0..=3usize { for d in 0..4usize { for arms in 0..4usize.pow(n as u32) {
        let a: Vec<usize> = (0..n).map(|i| arms / 4usize.pow(i as u32) % 4).collect();
        for low in [i32::MIN, -1, 0, 7, i32::MAX - 2, i32::MAX - 1, i32::MAX] { v.push(vec![Fill(pre), Tsw(d, low, a.clone()), Fill(1), End]) }
        for keys in [[1i32, 2, 3], [3, 2, 1], [i32::MAX, i32::MIN, 0], [-1, i32::MAX, i32::MIN], [0, -1, 1]] { v.push(vec![Fill(pre), Lsw(d, a.iter().enumerate().map(|(i, t)| (keys[i], *t)).collect()), Fill(1), End]) }
    } } } }
    for pre in 0..8 { for gap in 0..5 { for n in 1..3usize { for m in 0..3usize { for last in [0usize, 1, 3, 5] {
        v.push(vec![Fill(pre), Tsw(4, 5, vec![last; n]), Fill(gap), Lsw(0, (0..m).map(|i| (i as i32 * 9, (i + last) % 6)).collect()), Fill(1), End]);
        v.push(vec![Fill(pre), Lsw(2, (0..m).map(|i| (-(i as i32), last)).collect()), Fill(gap), Tsw(last, i32::MIN, vec![1; n]), Fill(1), End]);
    } } } } }
    for pre in 0..4 { for k in [167i64, 153, 168] { for d in 32735..=32775 { for t in [0usize, 2, 5] {
        v.push(vec![Fill(pre), branch(k, 5), Tsw(t, 0, vec![5, 2]), Fill(0), Fill(d - 20), End]);
        v.push(vec![Fill(pre), branch(k, 5), Lsw(5, vec![(4, t), (-4, 1)]), Fill(1), Fill(d - 20), End]);
        v.push(vec![Fill(pre), Fill(d - 30), Lsw(t, vec![(1, 4)]), Fill(3), branch(k, 0), End]);
    } } } }
    for n in [100usize, 8187, 8188, 8189, 16377, 16378, 16379, 16380, 16381] { for pre in 0..5 { v.push(vec![Fill(pre), Tsw(0, 3, (0..n).map(|i| i % 3).collect()), End]); if n < 9000 { v.push(vec![Fill(pre), Lsw(2, (0..n).rev().map(|i| (i as i32 * 7 - 5000, i % 3)).collect()), End]) } } }
    run(ctx, "switches", v);
    // E: the size limit, reached by filler, by widening and by padding
    let mut v = vec![];
    for d in 65500..65545usize {
        v.push(vec![Fill(d), End]);
        for k in [167i64, 153, 168] { v.push(vec![branch(k, 2), Fill(d), End]); v.push(vec![Fill(d), branch(k, 0), End]); v.push(vec![Fill(d / 2), branch(k, 2), Fill(d - d / 2), End]); v.push(vec![branch(k, 3), branch(k, 3), Fill(d), End]) }
        v.push(vec![Fill(d), Tsw(0, 0, vec![2]), End]); v.push(vec![Fill(d), Lsw(0, vec![]), End]);
    }
    for d in [65535usize, 70000, 98304, 131071, 131072, 131080, 200000] { v.push(vec![Fill(d), End]); for k in [167i64, 153, 168] { v.push(vec![branch(k, 2), Fill(d), End]); v.push(vec![Fill(d), branch(k, 0), End]); v.push(vec![Fill(d), branch(k, 1), End]) } }
    v.push(vec![Tsw(0, 0, vec![1; 20000]), End]); v.push(vec![Lsw(0, (0..20000).map(|i| (i, 1)).collect()), End]);
    run(ctx, "size limit", v);
    // F: every kind of reference to a label that is not placed
    let bad = Label(999); let ok = Label(1);
    let mut v: Vec<Instruction> = kinds.iter().filter(|k| **k != 168).map(|k| Instruction::Jump(conc::jump_of(*k), bad)).collect();
    v.push(Instruction::Jsr(bad));
    for low in [0, 5] { v.push(Instruction::TableSwitch { default: bad, low, offsets: vec![ok] }); v.push(Instruction::TableSwitch { default: ok, low, offsets: vec![bad] }); v.push(Instruction::TableSwitch { default: ok, low, offsets: vec![ok, ok, bad] }) }
    v.push(Instruction::LookupSwitch { default: bad, table: Default::default() }); v.push(Instruction::LookupSwitch { default: bad, table: [(1, ok)].into_iter().collect() });
    v.push(Instruction::LookupSwitch { default: ok, table: [(1, bad)].into_iter().collect() }); v.push(Instruction::LookupSwitch { default: ok, table: [(1, ok), (-7, bad)].into_iter().collect() });
    for i in v { for f in [0usize, 1, 33000] {
        ctx.case(|| format!("unplaced label in {i:?}, {f} bytes before"), || {
            let mut code = vec![Instruction::Label(ok)]; fill(f, &mut code); code.push(i.clone()); code.push(Instruction::Return(None));
            ctx.steps(1);
            match write(&class_of(Code { max_stack: 1, max_locals: 1, code, catches: vec![], attrs: vec![] })) { Err(_) => Ok(1), Ok(b) => Err(format!("written: {}", clip(&hex(&b)))) }
        })
    } }
}
/// Reading: every 16-bit offset of every branch instruction, and 32-bit offsets that are congruent to valid ones.
fn read_side(ctx: &Ctx) {
    // 0 nop | 1 sipush | 4 <branch> | .. wide iinc(6) | return
    let judge = |code: &[u8]| -> Result<u64, String> {
        ctx.steps(1); ctx.state(fnv(code));
        let b = raw::with_code(RawPool::new(), code, &[], &[], &[]);
        match (parse::parse_class(&b), read(&b)) {
            (Ok(v), Ok(c)) => { same("read as", &v, &abs::class(&c)?)?; ctx.tag("read: valid"); Ok(hash_of(&v)) }
            (Ok(v), Err(e)) => Err(format!("valid code rejected: {e}; it says {v:?}")),
            (Err(e), Ok(_)) if e.ends_with(&format!(" to {}", code.len())) || e.contains("keys not ascending") => { ctx.tag("read: branch to the end of the code (unspecified)"); Ok(2) }
            (Err(e), Ok(c)) => Err(format!("accepted although {e}; read as {:?}", c.methods)),
            (Err(_), Err(_)) => { ctx.tag("read: rejected"); Ok(3) }
        }
    };
    let kinds: Vec<u8> = (153..=168).chain([198, 199]).collect();
    let tail = [196u8, 132, 1, 0, 0, 1, 177];
    par(kinds.len() * 256, |k| {
        let op = kinds[k / 256];
        let full = ctx.thorough() || matches!(op, 153 | 167 | 168 | 199);
        for lo in 0..=255u8 {
            let off = [(k % 256) as u8, lo];
            if !full && !matches!(k % 256, 0 | 1 | 127 | 128 | 254 | 255) { continue }
            let mut c = vec![0, 17, 1, 1, op]; c.extend(off); c.extend(tail);
            ctx.case(|| format!("code {}", hex(&c)), || judge(&c));
        }
    });
    let mut offs: Vec<u32> = vec![];
    for base in -20i64..40 { for m in [0i64, 1 << 8, 1 << 16, -(1 << 16), 1 << 17, 1 << 24, 1 << 31, 1 << 32, -(1 << 31)] { offs.push((base + m) as u32) } }
    offs.sort(); offs.dedup();
    for op in [200u8, 201] { for &o in &offs { let mut c = vec![0, 17, 1, 1, op]; c.extend(u4(o)); c.extend(tail); ctx.case(|| format!("code {}", hex(&c)), || judge(&c)) } }
    // switches: alignment x which offset is odd
    for pre in 0..4usize { for op in [170u8, 171] { for slot in 0..3 { for &o in &offs {
        let mut c = vec![0; pre]; c.push(op); while c.len() % 4 != 0 { c.push(0) }
        let good = |s: usize| if s == slot { o } else { 0 };
        c.extend(u4(good(0)));
        if op == 170 { c.extend(u4(5)); c.extend(u4(6)); c.extend(u4(good(1))); c.extend(u4(good(2))) } else { c.extend(u4(2)); c.extend(u4(3)); c.extend(u4(good(1))); c.extend(u4(9)); c.extend(u4(good(2))) }
        c.extend(tail);
        ctx.case(|| format!("code {}", hex(&c)), || judge(&c));
    } } } }
    // counts and ranges
    for pre in 0..4usize {
        for (lo, hi) in [(0, 0), (0, 1), (0, -1), (1, 0), (i32::MIN, i32::MAX), (i32::MAX, i32::MAX), (i32::MIN, i32::MIN), (i32::MAX, i32::MIN), (-1, 1), (5, 7), (0, i32::MAX), (0, 0x3fff_ffff), (0, 0x4000_0000)] { for have in 0..4 {
            let mut c = vec![0; pre]; c.push(170); while c.len() % 4 != 0 { c.push(0) }
            c.extend(u4(0)); c.extend(u4(lo as u32)); c.extend(u4(hi as u32)); for _ in 0..have { c.extend(u4(0)) } c.push(177);
            ctx.case(|| format!("code {}", hex(&c)), || judge(&c));
        } }
        for np in [0i32, 1, 2, 3, -1, i32::MIN, i32::MAX, 0x2000_0000] { for have in 0..4i32 {
            let mut c = vec![0; pre]; c.push(171); while c.len() % 4 != 0 { c.push(0) }
            c.extend(u4(0)); c.extend(u4(np as u32)); for k in 0..have { c.extend(u4(k as u32)); c.extend(u4(0)) } c.push(177);
            ctx.case(|| format!("code {}", hex(&c)), || judge(&c));
        } }
    }
    // lookupswitch: every word of boundary keys
    let ks = [i32::MIN, i32::MIN + 1, -1, 0, 1, 256, 65536, i32::MAX]; let mut w = vec![];
    for n in 1..=4usize { for c in 0..ks.len().pow(n as u32) {
        word(c, n, &ks, &mut w);
        let mut code = vec![171u8, 0, 0, 0]; code.extend(u4(12 + 8 * n as u32)); code.extend(u4(n as u32));
        for (i, k) in w.iter().enumerate() { code.extend(u4(*k as u32)); code.extend(u4(12 + 8 * n as u32 + i as u32)) } code.extend([0, 0, 0, 0, 177]);
        let mut s = w.clone(); s.sort(); s.dedup();
        ctx.case(|| format!("keys {w:?}"), || {
            ctx.steps(1);
            let b = raw::with_code(RawPool::new(), &code, &[], &[], &[]); let r = read(&b);
            if s.len() < n { return match r { Err(_) => Ok(0), Ok(_) => Err("accepted although a key occurs twice".into()) } }
            let c = match r { Ok(c) => c, Err(_) if s != w => { ctx.tag("unsorted keys rejected"); return Ok(1) } Err(e) => return Err(e) };
            let MethodAttribute::Code(co) = &c.methods[0].attributes[0] else { return Err("no code".into()) };
            let at = |l: &Label| { let mut k = 0usize; for i in &co.code { match i { Instruction::Label(x) if x == l => return k as i64, Instruction::Label(_) => {} Instruction::NoOp => k += 1, _ => {} } } -1 };
            let Some(Instruction::LookupSwitch { default, table }) = co.code.iter().find(|i| matches!(i, Instruction::LookupSwitch { .. })) else { return Err("no switch".into()) };
            if at(default) != 0 || table.len() != n { return Err(format!("default leads to no-op {}, {} entries", at(default), table.len())) }
            for (i, k) in w.iter().enumerate() { if table.get(k).map(&at) != Some(i as i64) { return Err(format!("key {k} leads to {:?} instead of no-op {i}", table.get(k).map(&at))) } }
            Ok(s.len() as u64)
        });
    } }
    // long codes: wide and narrow branches across 32768 and to the first and last instruction
    let mut v = vec![];
    for len in [32766usize, 32767, 32768, 32769, 40000, 65530, 65535] { for op in [167u8, 168, 153, 200, 201] { for from in [0usize, 5, 32760, 32767, len - 10] { for to in [0i64, 1, 32767, 32768, len as i64 - 1] {
        if from + 6 > len { continue }
        let mut c = vec![0u8; len]; c[len - 1] = 177; c[from] = op; let d = to - from as i64;
        if op < 200 { if !(-32768..=32767).contains(&d) { continue } c[from + 1..from + 3].copy_from_slice(&u2(d as u16)) } else { c[from + 1..from + 5].copy_from_slice(&u4(d as u32)) }
        v.push(c);
    } } } }
    par(v.len(), |k| ctx.case(|| format!("code {} bytes: {:?}", v[k].len(), v[k].iter().enumerate().filter(|x| *x.1 != 0).collect::<Vec<_>>()), || judge(&v[k])));
}
pub fn c14(ctx: &'static Ctx) -> i32 {
    ctx.rule("write side: every program of the listed families (fillers, branches, switches with every target), written, decoded independently and matched item by item: each branch leads to its target, filler intact, wide conditional branches keep their meaning; then read back. Read side: every listed offset, valid ones read exactly, invalid ones rejected. distinct: hash of outcome");
    ctx.assume("a conditional branch whose target is out of reach is written as the negated condition over a goto_w; a branch to the end of the code is unspecified");
    write_side(ctx);
    read_side(ctx);
    ctx.finish("model_checking")
}
