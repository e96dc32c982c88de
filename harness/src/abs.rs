//! Abstraction function: coffer value -> `V`, using only public structure (own printers and decoders).
use crate::v::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::collections::HashMap;
use wtf_8::Wtf8Str;

pub type R<T> = Result<T, String>;
/// Generalised UTF-8 -> UTF-16, own decoder (no validation shortcuts of the library).
pub fn w16(s: &Wtf8Str) -> Vec<u16> { bytes16(s.as_bytes()).unwrap_or_else(|e| panic!("ill-formed WTF-8 inside a value: {e}")) }
pub fn bytes16(b: &[u8]) -> R<Vec<u16>> {
    let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        let c = |k: usize| -> R<u32> { match b.get(k) { Some(x) if x & 0xC0 == 0x80 => Ok((x & 0x3F) as u32), _ => Err(format!("continuation at {k} of {b:02x?}")) } };
        let (cp, n) = match b[i] {
            x @ 0..=0x7F => (x as u32, 1),
            x @ 0xC2..=0xDF => (((x & 0x1F) as u32) << 6 | c(i + 1)?, 2),
            x @ 0xE0..=0xEF => (((x & 0xF) as u32) << 12 | c(i + 1)? << 6 | c(i + 2)?, 3),
            x @ 0xF0..=0xF4 => (((x & 7) as u32) << 18 | c(i + 1)? << 12 | c(i + 2)? << 6 | c(i + 3)?, 4),
            _ => return Err(format!("lead byte at {i} of {b:02x?}")),
        };
        if (n == 3 && cp < 0x800) || (n == 4 && !(0x10000..=0x10FFFF).contains(&cp)) { return Err(format!("range at {i}")) }
        if cp >= 0x10000 { let x = cp - 0x10000; o.push(0xD800 | (x >> 10) as u16); o.push(0xDC00 | (x & 0x3FF) as u16) }
        else {
            if (0xDC00..0xE000).contains(&cp) && n == 3 && i >= 3 && b[i - 3] == 0xED && (0xA0..0xB0).contains(&b[i - 2]) { return Err(format!("unjoined surrogate pair at {i}")) }
            o.push(cp as u16)
        }
        i += n;
    }
    Ok(o)
}
pub fn ws(s: &Wtf8Str) -> V { S(w16(s)) }
fn ows(s: &Option<Cow<'static, Wtf8Str>>) -> V { match s { None => none(), Some(s) => ws(s) } }
pub fn ty16(t: &Type, o: &mut Vec<u16>) {
    let c = |o: &mut Vec<u16>, c: char| o.push(c as u16);
    match t {
        Type::Byte => c(o, 'B'), Type::Char => c(o, 'C'), Type::Double => c(o, 'D'), Type::Float => c(o, 'F'), Type::Int => c(o, 'I'),
        Type::Long => c(o, 'J'), Type::Boolean => c(o, 'Z'), Type::Short => c(o, 'S'),
        Type::Ref(n) => { c(o, 'L'); o.extend(w16(n)); c(o, ';') }
        Type::ArrayRef(d, t) => { for _ in 0..*d { c(o, '[') } ty16(t, o) }
        Type::Method { parameters, ret } => { c(o, '('); for p in parameters { ty16(p, o) } c(o, ')'); match ret { None => c(o, 'V'), Some(t) => ty16(t, o) } }
    }
}
pub fn ty(t: &Type) -> V { let mut o = vec![]; ty16(t, &mut o); S(o) }
pub fn member(m: &MemberRef) -> V {
    let k = match (&m.descriptor, m.itfs) { (Type::Method { .. }, true) => "imethod", (Type::Method { .. }, false) => "method", _ => "field" };
    N(k, vec![ws(&m.owner), ws(&m.name), ty(&m.descriptor)])
}
pub fn mh_num(k: MethodHandleKind) -> i64 {
    use MethodHandleKind::*;
    match k { GetField => 1, GetStatic => 2, PutField => 3, PutStatic => 4, InvokeVirtual => 5, InvokeStatic => 6, InvokeSpecial => 7, NewInvokeSpecial => 8, InvokeInterface => 9 }
}
pub fn mh(h: &MethodHandle) -> V { N("mh", vec![I(mh_num(h.kind)), member(&h.member)]) }
pub fn konst(c: &Constant) -> V {
    match c {
        Constant::I32(x) => N("int", vec![I(*x as i64)]), Constant::F32(x) => N("float", vec![I(x.0.to_bits() as i64)]),
        Constant::I64(x) => N("long", vec![I(*x)]), Constant::F64(x) => N("double", vec![I(x.0.to_bits() as i64)]),
        Constant::String(s) => N("string", vec![ws(s)]), Constant::Class(s) => N("cls", vec![ws(s)]),
        Constant::Member(m) => member(m), Constant::MethodType(t) => N("mtype", vec![ty(t)]), Constant::MethodHandle(h) => mh(h),
    }
}
pub fn dynamic(d: &Dynamic) -> R<V> {
    let b = d.bsm.get().ok_or("unresolved bootstrap method")?;
    Ok(N("dyn", vec![ws(&d.name), ty(&d.descriptor), bsm(b)?]))
}
pub fn bsm(b: &BootstrapMethod) -> R<V> {
    let mut a = vec![]; for x in &b.arguments { a.push(ord(x, |c| Ok(konst(c)))?) }
    Ok(N("bsm", vec![mh(&b.handle), L(a)]))
}
fn ord<T>(x: &OrDynamic<T>, f: impl Fn(&T) -> R<V>) -> R<V> { match x { OrDynamic::Dynamic(d) => dynamic(d), OrDynamic::Static(t) => f(t) } }
fn pairs(m: &HashMap<Cow<'static, Wtf8Str>, AnnotationValue>) -> V { let mut v: Vec<V> = m.iter().map(|(k, e)| N("pair", vec![ws(k), element(e)])).collect(); v.sort(); L(v) }
pub fn ann(a: &Annotation) -> V { N("ann", vec![ty(&a.annotation_type), pairs(&a.element_values)]) }
pub fn element(e: &AnnotationValue) -> V {
    use AnnotationValue as A;
    let t = |c: char, v: Vec<V>| { let mut x = vec![I(c as i64)]; x.extend(v); N("ev", x) };
    match e {
        A::Byte(x) => t('B', vec![I(*x as i64)]), A::Char(x) => t('C', vec![I(*x as i64)]), A::Double(x) => t('D', vec![I(x.0.to_bits() as i64)]),
        A::Float(x) => t('F', vec![I(x.0.to_bits() as i64)]), A::Int(x) => t('I', vec![I(*x as i64)]), A::Long(x) => t('J', vec![I(*x)]),
        A::Short(x) => t('S', vec![I(*x as i64)]), A::Boolean(x) => t('Z', vec![I(*x as i64)]), A::String(s) => t('s', vec![ws(s)]),
        A::Enum(d, s) => t('e', vec![ty(d), ws(s)]), A::Class(None) => t('c', vec![s("V")]), A::Class(Some(d)) => t('c', vec![ty(d)]),
        A::Annotation(a) => t('@', vec![ann(a)]), A::Array(v) => t('[', vec![L(v.iter().map(element).collect())]),
    }
}
fn tann(t: Vec<V>, p: &[TypePath], a: &Type, e: &HashMap<Cow<'static, Wtf8Str>, AnnotationValue>) -> V {
    let path = p.iter().map(|x| { let (k, i) = match x { TypePath::Array(i) => (0, i), TypePath::Nested(i) => (1, i), TypePath::TypeBound(i) => (2, i), TypePath::TypeArgument(i) => (3, i) }; L(vec![I(k), I(*i as i64)]) }).collect();
    N("tgt", t).pipe(|t| N("tann", vec![t, L(path), ty(a), pairs(e)]))
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl Pipe for V {}
fn i(x: impl Into<i64>) -> V { I(x.into()) }
fn ctann(a: &ClassTypeAnnotation) -> V {
    use ClassTypeAnnotationTarget::*;
    tann(match a.target { GenericTypeParameter(x) => vec![I(0), i(x)], ExtendsImplementsClause(x) => vec![I(0x10), i(x)], GenericTypeParameterBound(x, y) => vec![I(0x11), i(x), i(y)] }, &a.type_path, &a.annotation_type, &a.element_values)
}
fn mtann(a: &MethodTypeAnnotation) -> V {
    use MethodTypeAnnotationTarget::*;
    tann(match a.target { GenericTypeParameter(x) => vec![I(1), i(x)], GenericTypeParameterBound(x, y) => vec![I(0x12), i(x), i(y)], Return => vec![I(0x14)], Reciever => vec![I(0x15)], FormalParameter(x) => vec![I(0x16), i(x)], Throws(x) => vec![I(0x17), i(x)] }, &a.type_path, &a.annotation_type, &a.element_values)
}
fn ftann(a: &FieldTypeAnnotation) -> V { tann(vec![I(0x13)], &a.type_path, &a.annotation_type, &a.element_values) }
fn raw(r: &RawAttribute) -> V { N("raw", vec![ws(&r.name), B(r.inner.to_vec())]) }
fn l<T>(v: &[T], f: impl Fn(&T) -> V) -> V { L(v.iter().map(f).collect()) }

pub fn class(c: &Class) -> R<V> {
    let mut attrs = vec![];
    for a in &c.attributes { if let Some(v) = class_attr(a)? { attrs.push(v) } }
    let mut fs = vec![];
    for f in &c.fields { fs.push(N("member", vec![i(f.access.bits()), ws(&f.name), ty(&f.descriptor), L(f.attrs.iter().map(field_attr).collect())])) }
    let mut ms = vec![];
    for m in &c.methods { let mut at = vec![]; for a in &m.attributes { at.push(method_attr(a)?) } ms.push(N("member", vec![i(m.access.bits()), ws(&m.name), ty(&m.descriptor), L(at)])) }
    Ok(N("class", vec![i(c.version.minor), I(major(c.version.major)), i(c.access.bits()), ws(&c.name), ows(&c.super_name), l(&c.interfaces, |s| ws(s)), L(fs), L(ms), L(attrs)]))
}
pub const MAJORS: [MajorVersion; 15] = { use MajorVersion::*; [J1, J1_2, J1_3, J1_4, J5, J6, J7, J8, J9, J10, J11, J12, J13, J14, J15] };
pub fn major(m: MajorVersion) -> i64 { 45 + MAJORS.iter().position(|x| *x == m).unwrap() as i64 }
pub fn class_attr(a: &ClassAttribute) -> R<Option<V>> {
    use ClassAttribute::*;
    Ok(Some(match a {
        Signature(x) => N("Signature", vec![s(&x.to_string())]), Synthetic => N("Synthetic", vec![]), Deprecated => N("Deprecated", vec![]),
        SourceFile(x) => N("SourceFile", vec![ws(x)]),
        InnerClasses(v) => N("InnerClasses", vec![l(v, |x| N("ic", vec![ws(&x.inner_fqname), ows(&x.outer_fqname), ows(&x.inner_name), i(x.inner_access.bits())]))]),
        EnclosingMethod(c, o) => N("EnclosingMethod", vec![ws(c), match o { None => none(), Some((n, t)) => N("nt", vec![ws(n), ty(t)]) }]),
        SourceDebugExtension(x) => N("SourceDebugExtension", vec![ws(&x.0)]),
        BootstrapMethods(b) => { for x in b { bsm(x)?; } return Ok(None) }
        Module(m) => N("Module", vec![ws(&m.name), i(m.flags.bits()), ows(&m.version),
            l(&m.requires, |r| N("req", vec![ws(&r.module), i(r.flags.bits()), ows(&r.version)])),
            l(&m.exports, |r| N("exp", vec![ws(&r.package), i(r.flags.bits()), l(&r.to, |s| ws(s))])),
            l(&m.opens, |r| N("open", vec![ws(&r.package), i(r.flags.bits()), l(&r.to, |s| ws(s))])),
            l(&m.uses, |s| ws(s)), l(&m.provides, |p| N("prov", vec![ws(&p.class), l(&p.with, |s| ws(s))]))]),
        ModulePackages(v) => N("ModulePackages", vec![l(v, |s| ws(s))]), ModuleMainClass(x) => N("ModuleMainClass", vec![ws(x)]),
        NestHost(x) => N("NestHost", vec![ws(x)]), NestMembers(v) => N("NestMembers", vec![l(v, |s| ws(s))]),
        RuntimeVisibleAnnotations(v) => N("RVA", vec![l(v, ann)]), RuntimeInvisibleAnnotations(v) => N("RIA", vec![l(v, ann)]),
        RuntimeVisibleTypeAnnotations(v) => N("RVTA", vec![l(v, ctann)]), RuntimeInvisibleTypeAnnotations(v) => N("RITA", vec![l(v, ctann)]),
        Raw(r) => raw(r),
    }))
}
pub fn field_attr(a: &FieldAttribute) -> V {
    use FieldAttribute::*;
    match a {
        Deprecated => N("Deprecated", vec![]), Synthetic => N("Synthetic", vec![]), Signature(x) => N("Signature", vec![s(&x.to_string())]),
        ConstantValue(c) => N("ConstantValue", vec![konst(c)]),
        RuntimeVisibleAnnotations(v) => N("RVA", vec![l(v, ann)]), RuntimeInvisibleAnnotations(v) => N("RIA", vec![l(v, ann)]),
        RuntimeVisibleTypeAnnotations(v) => N("RVTA", vec![l(v, ftann)]), RuntimeInvisibleTypeAnnotations(v) => N("RITA", vec![l(v, ftann)]),
        Raw(r) => raw(r),
    }
}
/// Recording constant pool writer (own, trivial): index = position + 1.
#[derive(Default)]
pub struct RecCp { pub e: Vec<RawConstantEntry>, pub bsm: Vec<BootstrapMethod> }
impl ConstantPoolWriter for RecCp {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 { self.e.push(v); self.e.len() as u16 }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 { self.bsm.push(b); self.bsm.len() as u16 - 1 }
}
fn method_param(p: &MethodParameter) -> R<V> {
    let mut cp = RecCp::default(); let mut b = vec![];
    ConstantPoolReadWrite::write_to(p, &mut cp, &mut b).map_err(|e| e.to_string())?;
    if b.len() != 4 { return Err(format!("MethodParameter writes {b:?}")) }
    let k = u16::from_be_bytes([b[0], b[1]]);
    let name = if k == 0 { none() } else { match &cp.e[k as usize - 1] { RawConstantEntry::WTF8(s) => ws(s), e => return Err(format!("{e:?}")) } };
    Ok(N("mp", vec![name, i(u16::from_be_bytes([b[2], b[3]]))]))
}
pub fn method_attr(a: &MethodAttribute) -> R<V> {
    use MethodAttribute::*;
    Ok(match a {
        Code(c) => code(c)?, Deprecated => N("Deprecated", vec![]), Synthetic => N("Synthetic", vec![]), Signature(x) => N("Signature", vec![s(&x.to_string())]),
        RuntimeVisibleAnnotations(v) => N("RVA", vec![l(v, ann)]), RuntimeInvisibleAnnotations(v) => N("RIA", vec![l(v, ann)]),
        RuntimeVisibleTypeAnnotations(v) => N("RVTA", vec![l(v, mtann)]), RuntimeInvisibleTypeAnnotations(v) => N("RITA", vec![l(v, mtann)]),
        RuntimeVisibleParameterAnnotations(v) => N("RVPA", vec![l(v, |p| l(p, ann))]), RuntimeInvisibleParameterAnnotations(v) => N("RIPA", vec![l(v, |p| l(p, ann))]),
        Exceptions(v) => N("Exceptions", vec![l(v, |s| ws(s))]), AnnotationDefault(e) => N("AnnotationDefault", vec![element(e)]),
        MethodParameters(v) => { let mut o = vec![]; for p in v { o.push(method_param(p)?) } N("MethodParameters", vec![L(o)]) }
        Raw(r) => raw(r),
    })
}
pub fn jump_op(c: JumpCondition) -> i64 {
    use JumpCondition::*;
    match c { IntegerEqualsZero => 153, IntegerNotEqualsZero => 154, IntegerLessThanZero => 155, IntegerGreaterThanOrEqualsZero => 156, IntegerGreaterThanZero => 157, IntegerLessThanOrEqualsZero => 158,
        IntegerEquals => 159, IntegerNotEquals => 160, IntegerLessThan => 161, IntegerGreaterThanOrEquals => 162, IntegerGreaterThan => 163, IntegerLessThanOrEquals => 164,
        ReferenceEquals => 165, ReferenceNotEquals => 166, Always => 167, IsNull => 198, IsNonNull => 199 }
}
fn lt(t: LocalType) -> i64 { match t { LocalType::Int => 0, LocalType::Long => 1, LocalType::Float => 2, LocalType::Double => 3, LocalType::Reference => 4 } }
/// One coffer instruction; None when it stands for no bytecode. Labels through `lab`.
pub fn insn(x: &Instruction, lab: &dyn Fn(&Label) -> R<i64>) -> R<Option<V>> {
    use Instruction as X;
    let op = |o: i64| N("op", vec![I(o)]);
    Ok(Some(match x {
        X::Label(_) | X::LineNumber(_) => return Ok(None),
        X::NoOp => op(0), X::PushNull => op(1), X::Push(c) => N("push", vec![ord(c, |c| Ok(konst(c)))?]),
        X::Pop1 => op(87), X::Pop2 => op(88), X::Dup => op(89), X::DupX1 => op(90), X::DupX2 => op(91), X::Dup2 => op(92), X::Dup2X1 => op(93), X::Dup2X2 => op(94), X::Swap => op(95),
        X::Jump(c, t) => N("jmp", vec![I(jump_op(*c)), I(lab(t)?)]), X::Jsr(t) => N("jsr", vec![I(lab(t)?)]), X::Ret(k) => N("ret", vec![i(*k)]),
        X::CompareLongs => op(148),
        X::CompareFloats(t, b) => op(match (t, b) { (FloatType::Float, NaNBehavior::ReturnsNegativeOne) => 149, (FloatType::Float, NaNBehavior::ReturnsOne) => 150, (FloatType::Double, NaNBehavior::ReturnsNegativeOne) => 151, (FloatType::Double, NaNBehavior::ReturnsOne) => 152 }),
        X::LocalVariable(LoadOrStore::Load, t, k) => N("load", vec![I(lt(*t)), i(*k)]), X::LocalVariable(LoadOrStore::Store, t, k) => N("store", vec![I(lt(*t)), i(*k)]),
        X::Array(d, t) => op(match d { LoadOrStore::Load => 46, LoadOrStore::Store => 79 } + match t { ArrayType::Int => 0, ArrayType::Long => 1, ArrayType::Float => 2, ArrayType::Double => 3, ArrayType::Reference => 4, ArrayType::ByteOrBool => 5, ArrayType::Char => 6, ArrayType::Short => 7 }),
        X::ArrayLength => op(190), X::Throw => op(191),
        X::IntOperation(t, o) => { let k = match t { IntType::Int => 0, IntType::Long => 1 }; use IntOperation::*; op(k + match o { Add => 96, Subtract => 100, Multiply => 104, Divide => 108, Remainder => 112, Negate => 116, ShiftLeft => 120, ShiftRight => 122, UnsignedShiftRight => 124, And => 126, Or => 128, ExclusiveOr => 130 }) }
        X::FloatOperation(t, o) => { let k = match t { FloatType::Float => 2, FloatType::Double => 3 }; use FloatOperation::*; op(k + match o { Add => 96, Subtract => 100, Multiply => 104, Divide => 108, Remainder => 112, Negate => 116 }) }
        X::CheckCast(c) => N("cast", vec![I(192), ord(c, |c| Ok(class_type(c)))?]), X::InstanceOf(c) => N("cast", vec![I(193), ord(c, |c| Ok(class_type(c)))?]),
        X::NewArray(t, 1) => N("newarr", vec![ord(t, |t| Ok(ty(t)))?]), X::NewArray(t, d) => N("multi", vec![ord(t, |t| Ok(ty(t)))?, i(*d)]),
        X::Monitor(MonitorOperation::Enter) => op(194), X::Monitor(MonitorOperation::Exit) => op(195),
        X::New(c) => N("new", vec![ord(c, |c| Ok(ws(c)))?]),
        X::Conversion(a, b) => { use NumberType::*; op(match (a, b) { (Int, Int) | (Long, Long) | (Float, Float) | (Double, Double) => return Ok(None), (Int, Long) => 133, (Int, Float) => 134, (Int, Double) => 135, (Long, Int) => 136, (Long, Float) => 137, (Long, Double) => 138, (Float, Int) => 139, (Float, Long) => 140, (Float, Double) => 141, (Double, Int) => 142, (Double, Long) => 143, (Double, Float) => 144 }) }
        X::ConvertInt(b) => { use BitType::*; op(match b { Int => return Ok(None), Long => 133, Float => 134, Double => 135, Byte => 145, Char => 146, Short => 147 }) }
        X::Return(t) => op(match t { None => 177, Some(LocalType::Int) => 172, Some(LocalType::Long) => 173, Some(LocalType::Float) => 174, Some(LocalType::Double) => 175, Some(LocalType::Reference) => 176 }),
        X::Field(g, m, r) => N("ref", vec![I(match (g, m) { (GetOrPut::Get, MemberType::Static) => 178, (GetOrPut::Put, MemberType::Static) => 179, (GetOrPut::Get, MemberType::Virtual) => 180, (GetOrPut::Put, MemberType::Virtual) => 181 }), ord(r, |m| Ok(member(m)))?]),
        X::InvokeExact(m, r) => N("ref", vec![I(match m { MemberType::Virtual => 182, MemberType::Static => 184 }), ord(r, |m| Ok(member(m)))?]),
        X::InvokeSpecial(r) => N("ref", vec![I(183), ord(r, |m| Ok(member(m)))?]),
        X::InvokeInterface(r, c) => N("itf", vec![ord(r, |m| Ok(member(m)))?, i(*c)]), X::InvokeDynamic(d) => N("indy", vec![dynamic(d)?]),
        X::IntIncrement(k, v) => N("iinc", vec![i(*k), i(*v)]),
        X::TableSwitch { default, low, offsets } => { let mut o = vec![]; for t in offsets { o.push(I(lab(t)?)) } N("tsw", vec![I(lab(default)?), i(*low), L(o)]) }
        X::LookupSwitch { default, table } => { let mut o = vec![]; for (k, t) in table { o.push(L(vec![i(*k), I(lab(t)?)])) } o.sort(); N("lsw", vec![I(lab(default)?), L(o)]) }
    }))
}
fn class_type(c: &ClassType) -> V { match c { ClassType::Object(s) => ws(s), ClassType::Array(d, t) => { let mut o = vec!['[' as u16; *d as usize]; ty16(t, &mut o); S(o) } } }
pub fn code(c: &Code) -> R<V> {
    // positions: index of the next real instruction
    let mut labels: HashMap<Label, i64> = HashMap::new();
    let mut lines = vec![]; let mut n = 0;
    for x in &c.code {
        match x {
            Instruction::Label(l) => { if labels.insert(*l, n).is_some() { return Err(format!("label {} placed twice", l.0)) } }
            Instruction::LineNumber(k) => lines.push(L(vec![I(n), i(*k)])),
            x => if insn(x, &|_| Ok(0))?.is_some() { n += 1 },
        }
    }
    let lab = |l: &Label| labels.get(l).copied().ok_or_else(|| format!("label {} not placed", l.0));
    let mut ins = vec![]; for x in &c.code { if let Some(v) = insn(x, &lab)? { ins.push(v) } }
    let h = |c: &Catch| -> R<V> { Ok(N("h", vec![I(lab(&c.start)?), I(lab(&c.end)?), I(lab(&c.handler)?), ows(&c.catch)])) };
    let mut hs = vec![]; for c in &c.catches { hs.push(h(c)?) }
    let (mut lv, mut lvt, mut other) = (vec![], vec![], vec![]);
    let tanns = |v: &[CodeTypeAnnotation]| -> R<V> {
        let mut o = vec![];
        for a in v {
            use CodeTypeAnnotationTarget::*;
            let lv = |v: &[LocalVarTarget]| -> R<V> { let mut o = vec![]; for t in v { o.push(L(vec![I(lab(&t.start)?), I(lab(&t.end)?), i(t.idx)])) } Ok(L(o)) };
            let t = match &a.target {
                LocalVariable(v) => vec![I(0x40), lv(v)?], ResourceVariable(v) => vec![I(0x41), lv(v)?], CatchParameter(c) => vec![I(0x42), h(c)?],
                InstanceOf(l) => vec![I(0x43), I(lab(l)?)], Constructor(l) => vec![I(0x44), I(lab(l)?)], ConstructorRef(l) => vec![I(0x45), I(lab(l)?)], MethodRef(l) => vec![I(0x46), I(lab(l)?)],
                Cast(l, k) => vec![I(0x47), I(lab(l)?), i(*k)], GenericConstructor(l, k) => vec![I(0x48), I(lab(l)?), i(*k)], GenericMethod(l, k) => vec![I(0x49), I(lab(l)?), i(*k)],
                GenericConstructorRef(l, k) => vec![I(0x4A), I(lab(l)?), i(*k)], GenericMethodRef(l, k) => vec![I(0x4B), I(lab(l)?), i(*k)],
            };
            o.push(tann(t, &a.type_path, &a.annotation_type, &a.element_values));
        }
        Ok(L(o))
    };
    for a in &c.attrs {
        match a {
            CodeAttribute::VisibleTypeAnnotations(v) => other.push(N("RVTA", vec![tanns(v)?])),
            CodeAttribute::InvisibleTypeAnnotations(v) => other.push(N("RITA", vec![tanns(v)?])),
            CodeAttribute::Raw(r) => other.push(raw(r)),
            CodeAttribute::LocalVariables(v) => for x in v {
                let e = |t: V| -> R<V> { Ok(L(vec![I(lab(&x.start)?), I(lab(&x.end)?), ws(&x.name), t, i(x.index)])) };
                if let Some(d) = &x.descriptor { lv.push(e(ty(d))?) }
                if let Some(g) = &x.signature { lvt.push(e(s(&g.to_string()))?) }
            },
        }
    }
    lines.sort_by_key(|l| l.at(0).i()); sort_vars(&mut lv); sort_vars(&mut lvt);
    Ok(N("code", vec![i(c.max_stack), i(c.max_locals), L(ins), L(hs), L(lines), L(lv), L(lvt), L(other)]))
}
pub fn vt(v: &VerificationType, lab: &dyn Fn(&Label) -> i64) -> V {
    use VerificationType::*;
    N("vt", match v { Top => vec![I(0)], Int => vec![I(1)], Float => vec![I(2)], Double => vec![I(3)], Long => vec![I(4)], Null => vec![I(5)], UninitializedThis => vec![I(6)], Object(c) => vec![I(7), ws(c)], UninitializedVariable(l) => vec![I(8), I(lab(l))] })
}
pub fn frame(f: &RawFrame, lab: &dyn Fn(&Label) -> i64) -> V {
    let vs = |v: &[VerificationType]| L(v.iter().map(|x| vt(x, lab)).collect());
    match f {
        RawFrame::Same(o) => N("same", vec![i(*o)]), RawFrame::SameLocalsOneStack(o, v) => N("one", vec![i(*o), vt(v, lab)]), RawFrame::Chop(o, k) => N("chop", vec![i(*o), i(*k)]),
        RawFrame::Append(o, v) => N("append", vec![i(*o), vs(v)]), RawFrame::Full(o, a, b) => N("full", vec![i(*o), vs(a), vs(b)]),
    }
}
