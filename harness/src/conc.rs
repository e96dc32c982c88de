//! Concretisation: `V` -> coffer value through public constructors, never through coffer's reader
//! (except two types whose fields are private: they are read from a four-byte image).
use crate::v::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use std::collections::HashMap;
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

type Ws = Cow<'static, Wtf8Str>;
pub fn w(u: &[u16]) -> Ws {
    let mut o = Wtf8String::new();
    for c in char::decode_utf16(u.iter().copied()) { o.push(match c { Ok(c) => Codepoint::from_char(c), Err(e) => Codepoint::from_u32(e.unpaired_surrogate() as u32).unwrap() }) }
    if BORROW.with(|b| b.get()) { { let l: &'static Wtf8String = Box::leak(Box::new(o)); Cow::Borrowed(l.as_wstr()) } } else { Cow::Owned(o) }
}
thread_local! { static BORROW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Values built inside borrow their strings (from leaked memory).
pub fn borrowing<T>(f: impl FnOnce() -> T) -> T { BORROW.with(|b| b.set(true)); let r = f(); BORROW.with(|b| b.set(false)); r }
pub fn ws(v: &V) -> Ws { w(v.st()) }
fn ows(v: &V) -> Option<Ws> { v.opt().map(ws) }
pub fn ty(v: &V) -> Type { let d = v.st(); let (t, p) = ty_at(d, 0); assert_eq!(p, d.len(), "descriptor {v:?}"); t }
fn ty_at(d: &[u16], p: usize) -> (Type, usize) {
    match d[p] as u8 as char {
        'B' => (Type::Byte, p + 1), 'C' => (Type::Char, p + 1), 'D' => (Type::Double, p + 1), 'F' => (Type::Float, p + 1), 'I' => (Type::Int, p + 1), 'J' => (Type::Long, p + 1), 'Z' => (Type::Boolean, p + 1), 'S' => (Type::Short, p + 1),
        'L' => { let e = p + d[p..].iter().position(|c| *c == ';' as u16).unwrap(); (Type::Ref(w(&d[p + 1..e])), e + 1) }
        '[' => { let n = d[p..].iter().take_while(|c| **c == '[' as u16).count(); let (t, e) = ty_at(d, p + n); (Type::ArrayRef(n as u8, Box::new(t)), e) }
        '(' => { let mut q = p + 1; let mut ps = vec![]; while d[q] != ')' as u16 { let (t, e) = ty_at(d, q); ps.push(t); q = e } q += 1; if d[q] == 'V' as u16 { (Type::Method { parameters: ps, ret: None }, q + 1) } else { let (t, e) = ty_at(d, q); (Type::Method { parameters: ps, ret: Some(Box::new(t)) }, e) } }
        c => panic!("descriptor char {c}"),
    }
}
pub fn member(v: &V) -> MemberRef { MemberRef { owner: ws(v.at(0)), name: ws(v.at(1)), descriptor: ty(v.at(2)), itfs: v.name() == "imethod" } }
pub const KINDS: [MethodHandleKind; 9] = { use MethodHandleKind::*; [GetField, GetStatic, PutField, PutStatic, InvokeVirtual, InvokeStatic, InvokeSpecial, NewInvokeSpecial, InvokeInterface] };
pub fn mh(v: &V) -> MethodHandle { MethodHandle { kind: KINDS[v.at(0).i() as usize - 1], member: member(v.at(1)) } }
pub fn konst(v: &V) -> Constant {
    match v.name() {
        "int" => Constant::I32(v.at(0).i() as i32), "float" => Constant::F32(TotalF32(f32::from_bits(v.at(0).i() as u32))), "long" => Constant::I64(v.at(0).i()), "double" => Constant::F64(TotalF64(f64::from_bits(v.at(0).i() as u64))),
        "string" => Constant::String(ws(v.at(0))), "cls" => Constant::Class(ws(v.at(0))), "mtype" => Constant::MethodType(ty(v.at(0))), "mh" => Constant::MethodHandle(mh(v)), _ => Constant::Member(member(v)),
    }
}
pub fn bsm(v: &V) -> BootstrapMethod { BootstrapMethod { handle: mh(v.at(0)), arguments: v.at(1).l().iter().map(|x| ord(x, konst)).collect() } }
pub fn dynamic(v: &V) -> Dynamic { Dynamic::new(bsm(v.at(2)), ws(v.at(0)), ty(v.at(1))) }
fn ord<T>(v: &V, f: impl Fn(&V) -> T) -> OrDynamic<T> { if v.name() == "dyn" { OrDynamic::Dynamic(dynamic(v)) } else { OrDynamic::Static(f(v)) } }
fn pairs(v: &V) -> HashMap<Ws, AnnotationValue> { v.l().iter().map(|p| (ws(p.at(0)), element(p.at(1)))).collect() }
pub fn ann(v: &V) -> Annotation { Annotation { annotation_type: ty(v.at(0)), element_values: pairs(v.at(1)) } }
pub fn element(v: &V) -> AnnotationValue {
    use AnnotationValue as A;
    let x = v.at(1);
    match v.at(0).i() as u8 {
        b'B' => A::Byte(x.i() as i8), b'C' => A::Char(x.i() as u16), b'D' => A::Double(TotalF64(f64::from_bits(x.i() as u64))), b'F' => A::Float(TotalF32(f32::from_bits(x.i() as u32))),
        b'I' => A::Int(x.i() as i32), b'J' => A::Long(x.i()), b'S' => A::Short(x.i() as i16), b'Z' => A::Boolean(x.i() == 1), b's' => A::String(ws(x)), b'e' => A::Enum(ty(x), ws(v.at(2))),
        b'c' => A::Class(if *x == s("V") { None } else { Some(ty(x)) }), b'@' => A::Annotation(ann(x)), b'[' => A::Array(x.l().iter().map(element).collect()), t => panic!("element {t}"),
    }
}
fn path(v: &V) -> Vec<TypePath> { v.l().iter().map(|p| { let i = p.at(1).i() as u8; match p.at(0).i() { 0 => TypePath::Array(i), 1 => TypePath::Nested(i), 2 => TypePath::TypeBound(i), _ => TypePath::TypeArgument(i) } }).collect() }
fn ctann(v: &V) -> ClassTypeAnnotation {
    use ClassTypeAnnotationTarget::*;
    let t = v.at(0); let a = |k| t.at(k).i();
    ClassTypeAnnotation { target: match a(0) { 0 => GenericTypeParameter(a(1) as u8), 0x10 => ExtendsImplementsClause(a(1) as u16), _ => GenericTypeParameterBound(a(1) as u8, a(2) as u8) }, type_path: path(v.at(1)), annotation_type: ty(v.at(2)), element_values: pairs(v.at(3)) }
}
fn mtann(v: &V) -> MethodTypeAnnotation {
    use MethodTypeAnnotationTarget::*;
    let t = v.at(0); let a = |k| t.at(k).i();
    MethodTypeAnnotation { target: match a(0) { 1 => GenericTypeParameter(a(1) as u8), 0x12 => GenericTypeParameterBound(a(1) as u8, a(2) as u8), 0x14 => Return, 0x15 => Reciever, 0x16 => FormalParameter(a(1) as u8), _ => Throws(a(1) as u16) }, type_path: path(v.at(1)), annotation_type: ty(v.at(2)), element_values: pairs(v.at(3)) }
}
fn ftann(v: &V) -> FieldTypeAnnotation { FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: path(v.at(1)), annotation_type: ty(v.at(2)), element_values: pairs(v.at(3)) } }
fn raw(v: &V) -> RawAttribute { let B(b) = v.at(1) else { panic!() }; RawAttribute::new(ws(v.at(0)), b.clone()) }
fn l<T>(v: &V, f: impl Fn(&V) -> T) -> Vec<T> { v.l().iter().map(f).collect() }
fn txt(v: &V) -> String { String::from_utf16(v.st()).unwrap() }
/// Parsing a signature is coffer's own job (C12 checks it against the grammar); failure here is reported by the caller.
fn sig<T: std::str::FromStr<Err = coffer::Error>>(v: &V) -> T { txt(v).parse().unwrap_or_else(|e| panic!("valid signature {v:?} rejected: {e}")) }
/// How the bootstrap table is declared in a constructed class.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Table { Absent, Empty, Full, Unused, Two }
pub fn class(v: &V) -> Class { class_with(v, Table::Absent) }
pub fn class_with(v: &V, t: Table) -> Class {
    let mut attributes = l(v.at(8), class_attr);
    let unused = BootstrapMethod { handle: mh(&N("mh", vec![I(6), N("method", vec![s("un/Used"), s("u"), s("()V")])])), arguments: vec![] };
    match t { Table::Absent => {} Table::Empty => attributes.push(ClassAttribute::BootstrapMethods(vec![])), Table::Unused => attributes.insert(0, ClassAttribute::BootstrapMethods(vec![unused])),
        Table::Two => { let mut b = vec![]; collect_bsms(v, &mut b); let k = b.len() / 2; attributes.insert(0, ClassAttribute::BootstrapMethods(b[..k].iter().map(bsm).collect())); attributes.push(ClassAttribute::BootstrapMethods(b[k..].iter().map(bsm).chain([unused]).collect())) }
        Table::Full => { let mut b = vec![]; collect_bsms(v, &mut b); attributes.push(ClassAttribute::BootstrapMethods(b.iter().map(bsm).collect())) } }
    Class {
        version: JavaVersion { minor: v.at(0).i() as u16, major: crate::abs::MAJORS[v.at(1).i() as usize - 45] },
        access: ClassFlags::from_bits(v.at(2).i() as u16).unwrap(), name: ws(v.at(3)), super_name: ows(v.at(4)), interfaces: l(v.at(5), ws),
        fields: l(v.at(6), |f| Field { access: FieldFlags::from_bits(f.at(0).i() as u16).unwrap(), name: ws(f.at(1)), descriptor: ty(f.at(2)), attrs: l(f.at(3), field_attr) }),
        methods: l(v.at(7), |f| Method { access: MethodFlags::from_bits(f.at(0).i() as u16).unwrap(), name: ws(f.at(1)), descriptor: ty(f.at(2)), attributes: l(f.at(3), method_attr) }),
        attributes,
    }
}
pub fn collect_bsms(v: &V, o: &mut Vec<V>) {
    if v.name() == "bsm" && !o.contains(v) { o.push(v.clone()) }
    if let L(x) | N(_, x) = v { for y in x { collect_bsms(y, o) } }
}
pub fn class_attr(v: &V) -> ClassAttribute {
    use ClassAttribute as A;
    match v.name() {
        "Signature" => A::Signature(sig(v.at(0))), "Synthetic" => A::Synthetic, "Deprecated" => A::Deprecated, "SourceFile" => A::SourceFile(ws(v.at(0))),
        "InnerClasses" => A::InnerClasses(l(v.at(0), |x| InnerClass { inner_fqname: ws(x.at(0)), outer_fqname: ows(x.at(1)), inner_name: ows(x.at(2)), inner_access: InnerClassFlags::from_bits(x.at(3).i() as u16).unwrap() })),
        "EnclosingMethod" => A::EnclosingMethod(ws(v.at(0)), v.at(1).opt().map(|n| (ws(n.at(0)), ty(n.at(1))))),
        "SourceDebugExtension" => A::SourceDebugExtension(SourceDebugExtension(ws(v.at(0)))),
        "Module" => A::Module(Module { name: ws(v.at(0)), flags: ModuleFlags::from_bits(v.at(1).i() as u16).unwrap(), version: ows(v.at(2)),
            requires: l(v.at(3), |x| Require { module: ws(x.at(0)), flags: RequireFlags::from_bits(x.at(1).i() as u16).unwrap(), version: ows(x.at(2)) }),
            exports: l(v.at(4), |x| Export { package: ws(x.at(0)), flags: ExOpFlags::from_bits(x.at(1).i() as u16).unwrap(), to: l(x.at(2), ws) }),
            opens: l(v.at(5), |x| Open { package: ws(x.at(0)), flags: ExOpFlags::from_bits(x.at(1).i() as u16).unwrap(), to: l(x.at(2), ws) }),
            uses: l(v.at(6), ws), provides: l(v.at(7), |x| Provide { class: ws(x.at(0)), with: l(x.at(1), ws) }) }),
        "ModulePackages" => A::ModulePackages(l(v.at(0), ws)), "ModuleMainClass" => A::ModuleMainClass(ws(v.at(0))), "NestHost" => A::NestHost(ws(v.at(0))), "NestMembers" => A::NestMembers(l(v.at(0), ws)),
        "RVA" => A::RuntimeVisibleAnnotations(l(v.at(0), ann)), "RIA" => A::RuntimeInvisibleAnnotations(l(v.at(0), ann)), "RVTA" => A::RuntimeVisibleTypeAnnotations(l(v.at(0), ctann)), "RITA" => A::RuntimeInvisibleTypeAnnotations(l(v.at(0), ctann)),
        "raw" => A::Raw(raw(v)), x => panic!("class attr {x}"),
    }
}
pub fn field_attr(v: &V) -> FieldAttribute {
    use FieldAttribute as A;
    match v.name() {
        "Deprecated" => A::Deprecated, "Synthetic" => A::Synthetic, "Signature" => A::Signature(sig(v.at(0))), "ConstantValue" => A::ConstantValue(konst(v.at(0))),
        "RVA" => A::RuntimeVisibleAnnotations(l(v.at(0), ann)), "RIA" => A::RuntimeInvisibleAnnotations(l(v.at(0), ann)), "RVTA" => A::RuntimeVisibleTypeAnnotations(l(v.at(0), ftann)), "RITA" => A::RuntimeInvisibleTypeAnnotations(l(v.at(0), ftann)),
        "raw" => A::Raw(raw(v)), x => panic!("field attr {x}"),
    }
}
fn method_param(v: &V) -> MethodParameter {
    let mut cp = MapCp::new();
    if let Some(n) = v.at(0).opt() { cp.entries.insert(1, RawConstantEntry::WTF8(ws(n))); }
    let f = (v.at(1).i() as u16).to_be_bytes();
    let b = [0, v.at(0).opt().is_some() as u8, f[0], f[1]];
    ConstantPoolReadWrite::read_from(&mut cp, &mut &b[..]).expect("MethodParameter image")
}
fn pann(v: &V) -> ParameterAnnotations {
    let mut p: ParameterAnnotations = ConstantPoolReadWrite::read_from(&mut MapCp::new(), &mut &[0u8, 0][..]).expect("empty parameter annotations");
    p.extend(l(v, ann)); p
}
pub fn method_attr(v: &V) -> MethodAttribute {
    use MethodAttribute as A;
    match v.name() {
        "code" => A::Code(code(v)), "Deprecated" => A::Deprecated, "Synthetic" => A::Synthetic, "Signature" => A::Signature(sig(v.at(0))),
        "RVA" => A::RuntimeVisibleAnnotations(l(v.at(0), ann)), "RIA" => A::RuntimeInvisibleAnnotations(l(v.at(0), ann)), "RVTA" => A::RuntimeVisibleTypeAnnotations(l(v.at(0), mtann)), "RITA" => A::RuntimeInvisibleTypeAnnotations(l(v.at(0), mtann)),
        "RVPA" => A::RuntimeVisibleParameterAnnotations(l(v.at(0), pann)), "RIPA" => A::RuntimeInvisibleParameterAnnotations(l(v.at(0), pann)),
        "Exceptions" => A::Exceptions(l(v.at(0), ws)), "AnnotationDefault" => A::AnnotationDefault(element(v.at(0))), "MethodParameters" => A::MethodParameters(l(v.at(0), method_param)),
        "raw" => A::Raw(raw(v)), x => panic!("method attr {x}"),
    }
}
pub fn jump_of(op: i64) -> JumpCondition {
    use JumpCondition::*;
    match op { 153 => IntegerEqualsZero, 154 => IntegerNotEqualsZero, 155 => IntegerLessThanZero, 156 => IntegerGreaterThanOrEqualsZero, 157 => IntegerGreaterThanZero, 158 => IntegerLessThanOrEqualsZero,
        159 => IntegerEquals, 160 => IntegerNotEquals, 161 => IntegerLessThan, 162 => IntegerGreaterThanOrEquals, 163 => IntegerGreaterThan, 164 => IntegerLessThanOrEquals, 165 => ReferenceEquals, 166 => ReferenceNotEquals, 167 => Always, 198 => IsNull, 199 => IsNonNull, _ => panic!("jump {op}") }
}
fn lt(k: i64) -> LocalType { [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference][k as usize] }
fn ctype(v: &V) -> ClassType { let c = v.st(); if c.first() == Some(&('[' as u16)) { let n = c.iter().take_while(|x| **x == '[' as u16).count(); ClassType::Array(n as u8, ty(&S(c[n..].to_vec()))) } else { ClassType::Object(ws(v)) } }
pub fn op(o: i64) -> Instruction {
    use Instruction as X;
    let at = [ArrayType::Int, ArrayType::Long, ArrayType::Float, ArrayType::Double, ArrayType::Reference, ArrayType::ByteOrBool, ArrayType::Char, ArrayType::Short];
    match o {
        0 => X::NoOp, 1 => X::PushNull, 46..=53 => X::Array(LoadOrStore::Load, at[o as usize - 46]), 79..=86 => X::Array(LoadOrStore::Store, at[o as usize - 79]),
        87 => X::Pop1, 88 => X::Pop2, 89 => X::Dup, 90 => X::DupX1, 91 => X::DupX2, 92 => X::Dup2, 93 => X::Dup2X1, 94 => X::Dup2X2, 95 => X::Swap,
        96..=119 => { let k = (o - 96) as usize; if k % 4 < 2 { use IntOperation::*; X::IntOperation([IntType::Int, IntType::Long][k % 4], [Add, Subtract, Multiply, Divide, Remainder, Negate][k / 4]) } else { use FloatOperation::*; X::FloatOperation([FloatType::Float, FloatType::Double][k % 4 - 2], [Add, Subtract, Multiply, Divide, Remainder, Negate][k / 4]) } }
        120..=131 => { let k = (o - 120) as usize; use IntOperation::*; X::IntOperation([IntType::Int, IntType::Long][k % 2], [ShiftLeft, ShiftRight, UnsignedShiftRight, And, Or, ExclusiveOr][k / 2]) }
        133 => X::ConvertInt(BitType::Long), 134 => X::ConvertInt(BitType::Float), 135 => X::ConvertInt(BitType::Double), 145 => X::ConvertInt(BitType::Byte), 146 => X::ConvertInt(BitType::Char), 147 => X::ConvertInt(BitType::Short),
        136..=144 => { use NumberType::*; let (a, b) = [(Long, Int), (Long, Float), (Long, Double), (Float, Int), (Float, Long), (Float, Double), (Double, Int), (Double, Long), (Double, Float)][o as usize - 136]; X::Conversion(a, b) }
        148 => X::CompareLongs, 149 => X::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne), 150 => X::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne), 151 => X::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne), 152 => X::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne),
        172..=176 => X::Return(Some(lt(o - 172))), 177 => X::Return(None), 190 => X::ArrayLength, 191 => X::Throw, 194 => X::Monitor(MonitorOperation::Enter), 195 => X::Monitor(MonitorOperation::Exit),
        o => panic!("op {o}"),
    }
}
pub fn insn(v: &V, lab: &dyn Fn(&V) -> Label) -> Instruction {
    use Instruction as X;
    let a = |k: usize| v.at(k).i();
    match v.name() {
        "op" => op(a(0)), "push" => X::Push(ord(v.at(0), konst)), "load" => X::LocalVariable(LoadOrStore::Load, lt(a(0)), a(1) as u16), "store" => X::LocalVariable(LoadOrStore::Store, lt(a(0)), a(1) as u16),
        "iinc" => X::IntIncrement(a(0) as u16, a(1) as i16), "ret" => X::Ret(a(0) as u16), "jmp" => X::Jump(jump_of(a(0)), lab(v.at(1))), "jsr" => X::Jsr(lab(v.at(0))),
        "tsw" => X::TableSwitch { default: lab(v.at(0)), low: a(1) as i32, offsets: l(v.at(2), |t| lab(t)) }, "lsw" => X::LookupSwitch { default: lab(v.at(0)), table: v.at(1).l().iter().map(|p| (p.at(0).i() as i32, lab(p.at(1)))).collect() },
        "ref" => { let m = ord(v.at(1), member); match a(0) { 178 => X::Field(GetOrPut::Get, MemberType::Static, m), 179 => X::Field(GetOrPut::Put, MemberType::Static, m), 180 => X::Field(GetOrPut::Get, MemberType::Virtual, m), 181 => X::Field(GetOrPut::Put, MemberType::Virtual, m), 182 => X::InvokeExact(MemberType::Virtual, m), 183 => X::InvokeSpecial(m), _ => X::InvokeExact(MemberType::Static, m) } }
        "itf" => X::InvokeInterface(ord(v.at(0), member), a(1) as u8), "indy" => X::InvokeDynamic(dynamic(v.at(0))), "new" => X::New(ord(v.at(0), ws)),
        "cast" => { let c = ord(v.at(1), ctype); if a(0) == 192 { X::CheckCast(c) } else { X::InstanceOf(c) } }
        "newarr" => X::NewArray(ord(v.at(0), ty), 1), "multi" => X::NewArray(ord(v.at(0), ty), a(1) as u8), x => panic!("insn {x}"),
    }
}
pub fn code(v: &V) -> Code { code_lab(v, 0) }
/// `style` 0: one label per position in order of position; 1: sparse descending ids; 2: a fresh label per use.
pub fn code_lab(v: &V, style: u32) -> Code {
    let n = v.at(2).l().len();
    let used: std::cell::RefCell<Vec<Vec<Label>>> = std::cell::RefCell::new(vec![vec![]; n + 1]);
    let next = std::cell::Cell::new(0u32);
    let lab = |p: &V| -> Label {
        let p = p.i() as usize; let mut u = used.borrow_mut();
        if style != 2 { if let Some(l) = u[p].first() { return *l } }
        let l = match style { 0 => Label(p as u32), 1 => Label(u32::MAX - 7 * p as u32), _ => { next.set(next.get() + 1); Label(next.get()) } };
        u[p].push(l); l
    };
    let ins: Vec<Instruction> = v.at(2).l().iter().map(|i| insn(i, &lab)).collect();
    let h = |x: &V| Catch { start: lab(x.at(0)), end: lab(x.at(1)), handler: lab(x.at(2)), catch: ows(x.at(3)) };
    let catches: Vec<Catch> = l(v.at(3), h);
    let mut attrs = vec![];
    if !v.at(5).l().is_empty() || !v.at(6).l().is_empty() {
        let mut lv: Vec<LocalVariable> = vec![];
        let mut used6 = vec![false; v.at(6).l().len()];
        let key = |x: &V| L(vec![x.at(0).clone(), x.at(1).clone(), x.at(2).clone(), x.at(4).clone()]);
        for x in v.at(5).l() {
            let mut sg = None;
            for (k, y) in v.at(6).l().iter().enumerate() { if !used6[k] && y.at(4) == x.at(4) && key(y) == key(x) { used6[k] = true; sg = Some(sig(y.at(3))); break } }
            lv.push(LocalVariable { start: lab(x.at(0)), end: lab(x.at(1)), name: ws(x.at(2)), descriptor: Some(ty(x.at(3))), signature: sg, index: x.at(4).i() as u16 });
        }
        for (k, y) in v.at(6).l().iter().enumerate() { if !used6[k] { lv.push(LocalVariable { start: lab(y.at(0)), end: lab(y.at(1)), name: ws(y.at(2)), descriptor: None, signature: Some(sig(y.at(3))), index: y.at(4).i() as u16 }) } }
        attrs.push(CodeAttribute::LocalVariables(lv));
    }
    let hs = v.at(3).l().clone();
    let tanns = |v: &V| -> Vec<CodeTypeAnnotation> {
        l(v, |a| {
            use CodeTypeAnnotationTarget::*;
            let t = a.at(0); let k = |i: usize| t.at(i).i() as u8;
            let lv = || l(t.at(1), |x| LocalVarTarget { start: lab(x.at(0)), end: lab(x.at(1)), idx: x.at(2).i() as u16 });
            CodeTypeAnnotation { target: match t.at(0).i() {
                0x40 => LocalVariable(lv()), 0x41 => ResourceVariable(lv()),
                0x42 => CatchParameter(catches[hs.iter().position(|h| h == t.at(1)).expect("catch")].clone()),
                0x43 => InstanceOf(lab(t.at(1))), 0x44 => Constructor(lab(t.at(1))), 0x45 => ConstructorRef(lab(t.at(1))), 0x46 => MethodRef(lab(t.at(1))),
                0x47 => Cast(lab(t.at(1)), k(2)), 0x48 => GenericConstructor(lab(t.at(1)), k(2)), 0x49 => GenericMethod(lab(t.at(1)), k(2)), 0x4A => GenericConstructorRef(lab(t.at(1)), k(2)), _ => GenericMethodRef(lab(t.at(1)), k(2)),
            }, type_path: path(a.at(1)), annotation_type: ty(a.at(2)), element_values: pairs(a.at(3)) }
        })
    };
    for a in v.at(7).l() {
        attrs.push(match a.name() { "RVTA" => CodeAttribute::VisibleTypeAnnotations(tanns(a.at(0))), "RITA" => CodeAttribute::InvisibleTypeAnnotations(tanns(a.at(0))), _ => CodeAttribute::Raw(raw(a)) });
    }
    let used = used.into_inner();
    let mut out = vec![];
    let mut it = ins.into_iter();
    let mut at: Vec<Vec<u16>> = vec![vec![]; n + 1];
    for x in v.at(4).l() { at[x.at(0).i() as usize].push(x.at(1).i() as u16) }
    for p in 0..=n {
        for l in &used[p] { out.push(Instruction::Label(*l)) }
        for k in &at[p] { out.push(Instruction::LineNumber(*k)) }
        if p < n { out.push(it.next().unwrap()) }
    }
    Code { max_stack: v.at(0).i() as u16, max_locals: v.at(1).i() as u16, code: out, catches, attrs }
}
