//! C13: every instruction, both directions.
use super::c01::{read, same, write};
use crate::engine::*;
use crate::raw::{self, u2, RawPool};
use crate::v::*;
use crate::{abs, conc, enc, gen, parse};
use coffer::prelude::*;

fn rt(v: &V) -> Result<u64, String> {
    let b = write(&conc::class(v))?;
    let p = parse::parse_class(&b).map_err(|e| format!("written file is malformed: {e}"))?;
    same("written bytecode says", v, &p)?;
    same("read back", v, &abs::class(&read(&b)?)?)?;
    Ok(fnv(&b))
}
fn codec(ins: Vec<V>) -> V { gen::wrap_code(gen::codev(ins, vec![], vec![], vec![], vec![], vec![])) }
/// Many instructions per method; a failing batch is taken apart to name the instruction.
fn batch(ctx: &Ctx, what: &str, ins: Vec<V>) {
    ctx.tag_n(what, ins.len() as u64);
    let ch: Vec<&[V]> = ins.chunks(4000).collect();
    par(ch.len(), |k| {
        let c = ch[k];
        let run = |x: &[V]| { let mut i = x.to_vec(); i.push(gen::ret()); rt(&codec(i)) };
        ctx.case(|| format!("{what}: {} instructions from {:?}", c.len(), c[0]), || match guard(|| run(c)).unwrap_or_else(Err) {
            Ok(h) => { ctx.more(c.len() as u64 - 1); ctx.steps(2 * c.len() as u64); for x in c { let h = hash_of(x); ctx.outcome(h); ctx.state(h); } Ok(h) }
            Err(e) => { for x in c { guard(|| run(std::slice::from_ref(x))).unwrap_or_else(Err).map_err(|e| format!("{x:?}: {e}"))?; } Err(e) }
        });
    });
}
fn write_side(ctx: &Ctx) {
    let mut v = vec![];
    for t in 0..5 { for i in 0..65536 { v.push(N("load", vec![I(t), I(i)])); v.push(N("store", vec![I(t), I(i)])) } }
    for i in 0..65536 { v.push(N("ret", vec![I(i)])) }
    batch(ctx, "local variable instructions, every index", v);
    let mut v = vec![];
    for i in 0..65536 { for x in [0i64, 1, -1, 127, 128, -128, -129, 32767, -32768] { v.push(N("iinc", vec![I(i), I(x)])) } }
    for i in gen::IDX { for x in -32768..32768 { v.push(N("iinc", vec![I(i), I(x)])) } }
    if ctx.thorough() { for i in 250..262 { for x in -32768..32768 { v.push(N("iinc", vec![I(i), I(x)])) } } }
    batch(ctx, "iinc", v);
    let mut v = vec![];
    for x in -33100i64..33100 { v.push(N("push", vec![gen::kint(x)])) }
    for k in 0..32 { for d in -2i64..=2 { for s in [1, -1] { v.push(N("push", vec![gen::kint((s * ((1i64 << k) + d)) as i32 as i64)])) } } }
    for k in 0..64 { for d in -2i64..=2 { for s in [1, -1] { v.push(N("push", vec![N("long", vec![I((1i64 << k).wrapping_add(d).wrapping_mul(s))])])) } } }
    for x in -300i64..300 { v.push(N("push", vec![N("long", vec![I(x)])])) }
    for e in 0..512u32 { for m in [0u32, 1, 0x40_0000, 0x7f_fffe, 0x7f_ffff] { v.push(N("push", vec![N("float", vec![I((e << 23 | m) as i64)])])) } }
    for e in 0..4096u64 { for m in [0u64, 1, 1 << 51, (1 << 52) - 1] { v.push(N("push", vec![N("double", vec![I((e << 52 | m) as i64)])])) } }
    batch(ctx, "push", v);
    let mut v = vec![];
    for c in 0..256 { v.push(N("itf", vec![gen::member("imethod", "T", "m", "(J)V"), I(c)])) }
    batch(ctx, "invokeinterface counts", v);
    for el in ["Z", "C", "F", "D", "B", "S", "I", "J", "LA;", "LI;"] {
        let mut v = vec![];
        for n in 0..=254usize {
            v.push(N("newarr", vec![s(&format!("{}{el}", "[".repeat(n)))]));
            if n >= 1 { let a = s(&format!("{}{el}", "[".repeat(n + 1))); v.push(N("cast", vec![I(192), a.clone()])); v.push(N("cast", vec![I(193), a.clone()])); for d in 2..=n as i64 + 1 { v.push(N("multi", vec![a.clone(), I(d)])) } }
        }
        batch(ctx, "array types and dimensions", v);
    }
    batch(ctx, "all other instructions at operand boundaries", gen::simple_insns());
    // the pool index of the loaded constant crosses the one-byte boundary
    let mut kinds = vec![gen::kint(1 << 20), N("float", vec![I(0x4242_4242)]), N("long", vec![I(77)]), N("double", vec![I(0x4242_4242_4242_4242)]), N("string", vec![s("zz")]), N("cls", vec![s("zz")]), N("mtype", vec![s("(J)V")]), gen::mh(6, gen::member("method", "Z", "z", "()V"))]; kinds.extend(gen::dyns().into_iter().take(4));
    let fills: Vec<usize> = (215..262).chain(ctx.pick(vec![], (0..1000).collect())).collect();
    ctx.tag_n("ldc across the one-byte index boundary", (kinds.len() * fills.len()) as u64);
    par(kinds.len() * fills.len(), |k| {
        let (c, f) = (&kinds[k % kinds.len()], fills[k / kinds.len()]);
        let mut ins: Vec<V> = (0..f).map(|i| N("push", vec![gen::kint(100_000 + i as i64)])).collect();
        ins.push(N("push", vec![c.clone()])); ins.push(N("push", vec![gen::kint(99_999)])); ins.push(gen::ret());
        let v = codec(ins);
        ctx.case(|| format!("{f} constants, then push {c:?}"), || { ctx.steps(2); rt(&v) });
        for ldc in 0..5 { ctx.case(|| format!("read: {f} constants, then push {c:?}, ldc choice {ldc}"), || { ctx.steps(1); same("read as", &v, &abs::class(&read(&enc::encode(&v, &enc::Ch { ldc, ..Default::default() }))?)?)?; Ok(k as u64) }) }
    });
    // switches of every order of size, written and read
    let mut sw = vec![];
    for n in [1usize, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8000, 8191, 12000, 16000, 16370] { for lo in [0, -1, i32::MIN as i64, i32::MAX as i64 - n as i64 + 1, -(n as i64) / 2] {
        sw.push((n, N("tsw", vec![I(4), I(lo), L((0..n).map(|i| I((i * 7 % 5) as i64)).collect())])));
        if n <= 8180 { let k = (u32::MAX as usize / n.max(2)).min(70_001) as i64; let base = lo.min(i32::MAX as i64 - (n as i64 - 1) * k); sw.push((n, N("lsw", vec![I(4), L((0..n).map(|i| L(vec![I(base + i as i64 * k), I((i * 3 % 5) as i64)])).collect())]))) }
    } }
    ctx.tag_n("switches of up to 16370 arms", sw.len() as u64);
    par(sw.len(), |k| { let (n, x) = &sw[k]; let v = codec(vec![x.clone(), gen::opn(0), gen::opn(0), gen::opn(0), gen::ret()]);
        ctx.case(|| format!("{} of {n} arms", x.name()), || { ctx.steps(2); rt(&v) });
        ctx.case(|| format!("read: {} of {n} arms", x.name()), || { ctx.steps(1); let b = enc::encode(&v, &enc::Ch::default()); same("read as", &v, &abs::class(&read(&b)?)?)?; Ok(fnv(&b)) }); });
    // conversions built directly: the redundant ones stand for no instruction
    let nt = [NumberType::Int, NumberType::Long, NumberType::Float, NumberType::Double];
    let conv = [[0i64, 133, 134, 135], [136, 0, 137, 138], [139, 140, 0, 141], [142, 143, 144, 0]];
    let mut list: Vec<(Instruction, i64)> = vec![];
    for a in 0..4 { for b in 0..4 { list.push((Instruction::Conversion(nt[a], nt[b]), conv[a][b])) } }
    for (t, o) in [(BitType::Int, 0), (BitType::Long, 133), (BitType::Float, 134), (BitType::Double, 135), (BitType::Byte, 145), (BitType::Char, 146), (BitType::Short, 147)] { list.push((Instruction::ConvertInt(t), o)) }
    for (x, o) in &list { for (y, q) in &list {
        ctx.case(|| format!("{x:?} {y:?}"), || {
            let l = Label(3);
            let c = Code { max_stack: 2, max_locals: 3, code: vec![Instruction::Jump(JumpCondition::Always, l), x.clone(), Instruction::Label(l), y.clone(), Instruction::Return(None)], catches: vec![], attrs: vec![] };
            let mut want = vec![]; for o in [o, q] { if *o != 0 { want.push(gen::opn(*o)) } }
            want.insert(0, gen::jmp(167, 1 + (*o != 0) as i64)); want.push(gen::ret());
            let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(c));
            let b = write(&cl)?; ctx.steps(2);
            let want = codec(want);
            same("written", &want, &parse::parse_class(&b)?)?; same("read back", &want, &abs::class(&read(&b)?)?)?;
            Ok(fnv(&b))
        })
    } }
    // the constructors named after instructions build those
    let (l, mr) = (Label(3), |d: &str| MemberRef { owner: conc::w(&[65]), name: conc::w(&[102]), descriptor: conc::ty(&s(d)), itfs: false });
    let ctors: Vec<(Instruction, V)> = vec![
        (Instruction::iadd(), gen::opn(96)), (Instruction::isub(), gen::opn(100)), (Instruction::imul(), gen::opn(104)), (Instruction::irem(), gen::opn(112)), (Instruction::ineg(), gen::opn(116)),
        (Instruction::ifeq(l), gen::jmp(153, 1)), (Instruction::if_icmpeq(l), gen::jmp(159, 1)), (Instruction::if_icmpne(l), gen::jmp(160, 1)), (Instruction::if_icmple(l), gen::jmp(164, 1)), (Instruction::if_icmpgt(l), gen::jmp(163, 1)),
        (Instruction::getstatic(mr("I")), N("ref", vec![I(178), gen::member("field", "A", "f", "I")])), (Instruction::invokevirtual(mr("()I")), N("ref", vec![I(182), gen::member("method", "A", "f", "()I")])), (Instruction::invokestatic(mr("(J)V")), N("ref", vec![I(184), gen::member("method", "A", "f", "(J)V")])),
    ].into_iter().chain([IntOperation::Add, IntOperation::Subtract, IntOperation::Multiply, IntOperation::Divide, IntOperation::Remainder, IntOperation::Negate, IntOperation::ShiftLeft, IntOperation::ShiftRight, IntOperation::UnsignedShiftRight, IntOperation::And, IntOperation::Or, IntOperation::ExclusiveOr].into_iter().zip([96, 100, 104, 108, 112, 116, 120, 122, 124, 126, 128, 130]).map(|(o, n)| (Instruction::iop(o), gen::opn(n))))
        .chain([LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference].into_iter().enumerate().flat_map(|(k, t)| [0u16, 1, 3, 4, 255, 256, 65535].into_iter().flat_map(move |i| [(Instruction::load(t, i), N("load", vec![I(k as i64), I(i as i64)])), (Instruction::store(t, i), N("store", vec![I(k as i64), I(i as i64)]))])))
        .collect();
    for (x, want) in ctors {
        ctx.case(|| format!("constructor of {x:?}"), || {
            let c = Code { max_stack: 2, max_locals: 3, code: vec![x.clone(), Instruction::Label(l), Instruction::Return(None)], catches: vec![], attrs: vec![] };
            let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(c));
            let b = write(&cl)?; ctx.steps(1);
            same("written", &codec(vec![want.clone(), gen::ret()]), &parse::parse_class(&b)?)?; Ok(fnv(&b))
        })
    }
    // the published opcode numbers, in the order of the specification
    { use coffer::constants::insn as K; let all: [u8; 202] = [K::NOP, K::ACONST_NULL, K::ICONST_M1, K::ICONST_0, K::ICONST_1, K::ICONST_2, K::ICONST_3, K::ICONST_4, K::ICONST_5, K::LCONST_0, K::LCONST_1, K::FCONST_0, K::FCONST_1, K::FCONST_2, K::DCONST_0, K::DCONST_1, K::BIPUSH, K::SIPUSH, K::LDC, K::LDC_W, K::LDC2_W, K::ILOAD, K::LLOAD, K::FLOAD, K::DLOAD, K::ALOAD, K::ILOAD_0, K::ILOAD_1, K::ILOAD_2, K::ILOAD_3, K::LLOAD_0, K::LLOAD_1, K::LLOAD_2, K::LLOAD_3, K::FLOAD_0, K::FLOAD_1, K::FLOAD_2, K::FLOAD_3, K::DLOAD_0, K::DLOAD_1, K::DLOAD_2, K::DLOAD_3, K::ALOAD_0, K::ALOAD_1, K::ALOAD_2, K::ALOAD_3, K::IALOAD, K::LALOAD, K::FALOAD, K::DALOAD, K::AALOAD, K::BALOAD, K::CALOAD, K::SALOAD, K::ISTORE, K::LSTORE, K::FSTORE, K::DSTORE, K::ASTORE, K::ISTORE_0, K::ISTORE_1, K::ISTORE_2, K::ISTORE_3, K::LSTORE_0, K::LSTORE_1, K::LSTORE_2, K::LSTORE_3, K::FSTORE_0, K::FSTORE_1, K::FSTORE_2, K::FSTORE_3, K::DSTORE_0, K::DSTORE_1, K::DSTORE_2, K::DSTORE_3, K::ASTORE_0, K::ASTORE_1, K::ASTORE_2, K::ASTORE_3, K::IASTORE, K::LASTORE, K::FASTORE, K::DASTORE, K::AASTORE, K::BASTORE, K::CASTORE, K::SASTORE, K::POP, K::POP2, K::DUP, K::DUP_X1, K::DUP_X2, K::DUP2, K::DUP2_X1, K::DUP2_X2, K::SWAP, K::IADD, K::LADD, K::FADD, K::DADD, K::ISUB, K::LSUB, K::FSUB, K::DSUB, K::IMUL, K::LMUL, K::FMUL, K::DMUL, K::IDIV, K::LDIV, K::FDIV, K::DDIV, K::IREM, K::LREM, K::FREM, K::DREM, K::INEG, K::LNEG, K::FNEG, K::DNEG, K::ISHL, K::LSHL, K::ISHR, K::LSHR, K::IUSHR, K::LUSHR, K::IAND, K::LAND, K::IOR, K::LOR, K::IXOR, K::LXOR, K::IINC, K::I2L, K::I2F, K::I2D, K::L2I, K::L2F, K::L2D, K::F2I, K::F2L, K::F2D, K::D2I, K::D2L, K::D2F, K::I2B, K::I2C, K::I2S, K::LCMP, K::FCMPL, K::FCMPG, K::DCMPL, K::DCMPG, K::IFEQ, K::IFNE, K::IFLT, K::IFGE, K::IFGT, K::IFLE, K::IFICMPEQ, K::IFICMPNE, K::IFICMPLT, K::IFICMPGE, K::IFICMPGT, K::IFICMPLE, K::IFACMPEQ, K::IFACMPNE, K::GOTO, K::JSR, K::RET, K::TABLESWITCH, K::LOOKUPSWITCH, K::IRETURN, K::LRETURN, K::FRETURN, K::DRETURN, K::ARETURN, K::RETURN, K::GETSTATIC, K::PUTSTATIC, K::GETFIELD, K::PUTFIELD, K::INVOKEVIRTUAL, K::INVOKESPECIAL, K::INVOKESTATIC, K::INVOKEINTERFACE, K::INVOKEDYNAMIC, K::NEW, K::NEWARRAY, K::ANEWARRAY, K::ARRAYLENGTH, K::ATHROW, K::CHECKCAST, K::INSTANCEOF, K::MONITORENTER, K::MONITOREXIT, K::WIDE, K::MULTIANEWARRAY, K::IFNULL, K::IFNONNULL, K::GOTO_W, K::JSR_W];
      for (i, o) in all.iter().enumerate() { ctx.case(|| format!("opcode constant number {i}"), || if *o as usize == i { Ok(i as u64) } else { Err(format!("is {o}")) }) } }
    // conditions: their opcode, and a negation that holds exactly when the condition does not
    let holds = |op: i64, a: i64, b: i64| match op { 153 => a == 0, 154 => a != 0, 155 => a < 0, 156 => a >= 0, 157 => a > 0, 158 => a <= 0, 159 | 165 => a == b, 160 | 166 => a != b, 161 => a < b, 162 => a >= b, 163 => a > b, 164 => a <= b, 198 => a == 0, 199 => a != 0, _ => true };
    for o in gen::jumps() { ctx.case(|| format!("condition of opcode {o}"), || {
        let c = conc::jump_of(o); ctx.steps(1);
        if u8::from(c) as i64 != o { return Err(format!("{c:?} is opcode {}", u8::from(c))) }
        if -&c != -c { return Err("negation of a reference".into()) }
        match -c {
            None => if o != 167 { return Err("no negation".into()) },
            Some(n) => { let no = abs::jump_op(n); if (153..=158).contains(&o) != (153..=158).contains(&no) || (159..=164).contains(&o) != (159..=164).contains(&no) || (165..=166).contains(&o) != (165..=166).contains(&no) { return Err(format!("{c:?} negates to {n:?}")) } for a in -2..3 { for b in -2..3 { if holds(o, a, b) == holds(no, a, b) { return Err(format!("{c:?} and {n:?} agree on {a}, {b}")) } } } }
        }
        Ok(o as u64)
    }) }
    ctx.case(|| "float types".into(), || { for (f, st, l) in [(FloatType::Float, StackValueType::One, LocalType::Float), (FloatType::Double, StackValueType::Two, LocalType::Double)] { if StackValueType::from(f) != st || LocalType::from(f) != l { return Err(format!("{f:?}")) } } Ok(0) });
    for v in gen::consts() { ctx.case(|| format!("constant {v:?}"), || {
        let c = conc::konst(&v); ctx.steps(1);
        if c.is_wide() != ["long", "double"].contains(&v.name()) { return Err("is_wide".into()) }
        if let N("string", x) = &v { if Constant::string(conc::w(x[0].st())) != c { return Err("Constant::string".into()) } }
        if let N("int", x) = &v { if Constant::from(x[0].i() as i32) != c { return Err("Constant::from".into()) } }
        let o: OrDynamic<Constant> = c.clone().into();
        match o.map_static(|x| (x, 7)) { OrDynamic::Static((x, 7)) if x == c => Ok(hash_of(&v)), _ => Err("map_static".into()) }
    }) }
    for v in gen::dyns() { ctx.case(|| format!("dynamic {v:?}"), || { let d = conc::dynamic(&v); ctx.steps(1); let o: OrDynamic<MemberRef> = d.clone().into(); match o.map_static(|_| 0) { OrDynamic::Dynamic(x) if x == d => Ok(hash_of(&v)), _ => Err("map_static".into()) } }) }
    // the interface flag of a field's owner does not change what is referred to
    for o in 178..=181 { for nm in ["A", "", "p/T"] { for d in gen::field_descs() {
        let want = N("ref", vec![I(o), N("field", vec![s(nm), s("f"), d])]);
        ctx.case(|| format!("field of an interface {want:?}"), || {
            let mut c = conc::code(&gen::code1(want.clone())); for i in &mut c.code { if let Instruction::Field(_, _, OrDynamic::Static(m)) = i { m.itfs = true } }
            let mut cl = conc::class(&gen::wrap_method(vec![])); cl.methods[0].attributes.push(MethodAttribute::Code(c));
            let b = write(&cl)?; ctx.steps(1); same("written", &codec(vec![want.clone(), gen::ret()]), &parse::parse_class(&b)?)?; Ok(fnv(&b))
        })
    } } }
    // array creations that no instruction can express are errors
    let m = || Type::Method { parameters: vec![], ret: None };
    let tys: Vec<Type> = vec![Type::Boolean, Type::Char, Type::Float, Type::Double, Type::Byte, Type::Short, Type::Int, Type::Long, Type::Ref(conc::w(&[65])), m(), Type::ArrayRef(1, Box::new(Type::Int)), Type::ArrayRef(2, Box::new(Type::Ref(conc::w(&[65])))), Type::ArrayRef(254, Box::new(Type::Int))];
    for t in &tys { for d in 0..=255u8 {
        let dims = match t { Type::ArrayRef(n, _) => *n, _ => 0 };
        let ok = !matches!(t, Type::Method { .. }) && (d == 1 || (d >= 2 && dims >= d));
        ctx.case(|| format!("NewArray({t:?}, {d})"), || {
            let mut cl = conc::class(&gen::wrap_method(vec![]));
            cl.methods[0].attributes.push(MethodAttribute::Code(Code { max_stack: 1, max_locals: 1, code: vec![Instruction::NewArray(OrDynamic::Static(t.clone()), d), Instruction::Return(None)], catches: vec![], attrs: vec![] }));
            ctx.steps(1);
            match (write(&cl), ok) { (Ok(b), true) => { let p = parse::parse_class(&b)?; same("read back", &p, &abs::class(&read(&b)?)?)?; Ok(fnv(&b)) } (Err(_), false) => Ok(1), (Ok(_), false) => Err("written although no instruction expresses it".into()), (Err(e), true) => Err(e) }
        })
    } }
}
/// Errors of the model decoder that the property does not require of coffer.
fn unspecified(e: &str) -> bool { let e = e.rsplit("Code: ").next().unwrap(); ["opcode ", "invokeinterface", "invokedynamic zero", "non-zero switch padding", "branch ", "lookupswitch keys not", "code_length 0"].iter().any(|p| e.starts_with(p)) || ["Field(", "Method(", "IMethod("].iter().any(|k| e.contains(&format!("loadable expected, got {k}"))) }
/// Reads a file with this code; what coffer makes of it must be what the format says.
fn judge(ctx: &Ctx, b: &[u8]) -> Result<u64, String> {
    ctx.steps(1); ctx.state(fnv(b));
    let r = read(b);
    match (parse::parse_class(b), r) {
        (Ok(v), Ok(c)) => { same("read as", &v, &abs::class(&c)?)?; ctx.tag("valid"); Ok(hash_of(&v)) }
        (Ok(v), Err(e)) => Err(format!("valid bytecode rejected: {e}; it says {:?}", v.at(7))),
        (Err(e), _) if unspecified(&e) => { ctx.tag("unspecified"); Ok(2) }
        (Err(_), Err(_)) => { ctx.tag("rejected"); Ok(3) }
        (Err(e), Ok(c)) => Err(format!("accepted although {e}; read as {:?}", c.methods)),
    }
}
fn pool() -> (RawPool, u16) {
    let mut p = RawPool::new();
    let m = p.member(10, "A", "m", "()V"); p.member(9, "A", "f", "I"); p.member(11, "T", "m", "()V"); p.mh(6, m);
    p.add(3, &raw::u4(7)); p.add(4, &raw::u4(0x7fc0_0001)); p.add(5, &[0, 0, 0, 0, 0, 0, 0, 9]); p.add(6, &[0x7f, 0xf8, 0, 0, 0, 0, 0, 1]);
    p.one(8, "str"); p.one(16, "(I)V"); p.one(19, "mod"); p.one(20, "pk"); p.class("[[I"); p.class("[Z"); p.class("[[[LA;"); p.class("[");
    let n = p.nt("d", "I"); let mt = p.nt("d", "()V"); let w = p.nt("w", "J");
    p.two(17, 0, n); p.two(18, 0, mt); p.two(17, 0, w);
    let n = p.n;
    (p, n)
}
fn file(code: &[u8]) -> Vec<u8> {
    let (mut p, _) = pool();
    let m = p.member(10, "A", "m", "()V"); let h = p.mh(6, m);
    let mut bsm = vec![0, 1]; bsm.extend(u2(h)); bsm.extend([0, 0]);
    raw::with_code(p, code, &[], &[], &[("BootstrapMethods", bsm)])
}
fn read_side(ctx: &Ctx) {
    let n = { let (mut p, n) = pool(); p.utf("BootstrapMethods"); p.utf("Code"); p.class("O"); n + 1 };
    ctx.note("pool_entries", n);
    let one = |c: Vec<u8>| ctx.case(|| format!("code {}", hex(&c)), || judge(ctx, &file(&c)));
    let with = |pre: &[u8], ops: &[u8]| { let mut c = pre.to_vec(); c.extend_from_slice(ops); c.push(177); c };
    // every opcode alone, with 0..=9 bytes after it, of zeros / ones / 0xff; every opcode after wide
    par(256, |o| {
        for k in 0..10 { for f in [0u8, 1, 0xff] { one([vec![o as u8], vec![f; k]].concat()); one([vec![196, o as u8], vec![f; k]].concat()); one(with(&[o as u8], &vec![f; k])); one(with(&[0, 196, o as u8], &vec![f; k])) } }
        // one-byte operand in full
        for x in 0..=255u8 { one(with(&[o as u8], &[x])); one(with(&[o as u8], &[0, x])); if matches!(o, 16 | 18 | 21..=25 | 54..=58 | 169 | 188) { one(vec![o as u8, x]) } }
        // every pool index, and beyond it, as a two-byte operand, with every operand length
        for x in (0..n + 12).chain([255, 256, 257, 32767, 32768, 65535]) { for t in [&[][..], &[0], &[1], &[2], &[3], &[1, 0], &[0, 0], &[255, 0]] { one(with(&[o as u8], &[&u2(x)[..], t].concat())) } }
    });
    // full two-byte operands, batched
    let full: Vec<(&str, Vec<u8>)> = [17u8, 132].iter().map(|o| ("two-byte operand", vec![*o])).chain((21..=25).chain(54..=58).chain([169]).map(|o| ("wide", vec![196, o]))).collect();
    par(full.len() * 16, |k| {
        let (w, pre) = &full[k / 16]; let base = (k % 16) as u16 * 4096;
        let mut c = vec![]; for x in 0..4096u16 { c.extend_from_slice(pre); c.extend(u2(base + x)) }
        c.push(177);
        ctx.case(|| format!("{w} {pre:?} {base}.."), || { ctx.more(4095); judge(ctx, &file(&c)) });
    });
    // wide iinc: every index times boundary increments and boundary indices times every increment
    par(16 * 9, |k| {
        let (base, x) = ((k % 16) as u16 * 4096, [0i16, 1, -1, 127, 128, -128, -129, 32767, -32768][k / 16]);
        for sw in [false, true] {
            let mut c = vec![]; for i in 0..4096u16 { c.extend([196, 132]); let (a, b) = (u2(base + i), u2(x as u16)); if sw { c.extend(b); c.extend(a) } else { c.extend(a); c.extend(b) } }
            c.push(177);
            ctx.case(|| format!("wide iinc {base}.. {x} {sw}"), || { ctx.more(4095); judge(ctx, &file(&c)) });
        }
    });
    // multianewarray: class x every dimension count
    { let (mut p, _) = pool(); let cls = [p.class("[[I"), p.class("[Z"), p.class("[[[LA;"), p.class("A")]; par(256, |d| for c in cls { one(with(&[197], &[u2(c)[0], u2(c)[1], d as u8])) }) }
    // branches and switches over every class of distance, both ways
    let mut ds: Vec<i64> = vec![3, 4, 5, 6, 100, 127, 128, 129, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 40000, 65000, 65525]; if ctx.thorough() { ds.extend((6..600).chain(32700..32800)) }
    let ops: Vec<u8> = (153..=168).chain([198, 199, 200, 201, 170, 171]).collect();
    ctx.tag_n("branch distances x branch instructions x directions", (ds.len() * ops.len() * 2) as u64);
    par(ds.len() * ops.len(), |k| { let (d, o) = (ds[k % ds.len()], ops[k / ds.len()]);
        let w = matches!(o, 200 | 201 | 170 | 171);
        let ins = |at: i64, t: i64| -> Vec<u8> { let mut v = vec![o]; let r = t - at; match o { 170 => { while (at as usize + v.len()) % 4 != 0 { v.push(0) } for x in [r, -1, 0, r, 0] { v.extend((x as i32).to_be_bytes()) } } 171 => { while (at as usize + v.len()) % 4 != 0 { v.push(0) } for x in [r, 2, -7, r, 9, 0] { v.extend((x as i32).to_be_bytes()) } } _ if w => v.extend((r as i32).to_be_bytes()), _ => v.extend((r as i16).to_be_bytes()) } v };
        if w || d <= 32767 { let mut c = ins(0, d); if c.len() as i64 <= d { c.resize(d as usize, 0); c.push(0); c.push(177); if c.len() < 65536 { one(c) } } }
        if w || d <= 32768 { let mut c = vec![0; d as usize + 1]; let i = ins(d + 1, 1); c.extend(i); c.push(177); if c.len() < 65536 { one(c) } }
    });
    // truncated instructions at the very end of the code
    let long: [&[u8]; 8] = [&[17, 0, 1], &[132, 1, 1], &[196, 132, 0, 1, 0, 1], &[185, 0, 1, 1, 0], &[200, 0, 0, 0, 0], &[197, 0, 1, 1], &[170, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[171, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]];
    for l in long { for k in 1..=l.len() { one(l[..k].to_vec()); one([&[0, 0, 0, 0], &l[..k]].concat()) } }
}
pub fn c13(ctx: &'static Ctx) -> i32 {
    ctx.rule("write side: every instruction x operand listed, written, decoded by an independent bytecode decoder, and read back; read side: every opcode (also after wide) x operand bytes x constant kinds, read and compared with the independent decoder (valid: equal; undefined or unsuitable: error). distinct: instructions and file hashes");
    ctx.assume("not required of the reader: that getfield/invoke* name a member of the matching kind, that ldc/ldc2_w match the width of the constant or load no member reference (coffer's Constant has a Member variant), that reserved operand bytes are zero");
    write_side(ctx);
    let words = crate::fam::names_of(crate::fam::reps().into_iter().filter(|c| c.at(7).l().iter().any(|m| m.at(3).l().iter().any(|a| a.name() == "code"))).collect());
    ctx.tag_n("well-known words in operands", words.len() as u64);
    par(words.len(), |k| { ctx.state(hash_of(&words[k])); ctx.case(|| format!("{:?}", words[k]), || super::attrs::both(ctx, &words[k])) });
    read_side(ctx);
    ctx.finish("model_checking")
}
