From 277f449cda118ab4c190b16e72cbe379350d81d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:38 +0000
Subject: [PATCH 01/24] fix: reject malformed descriptors (trailing text,
 nested method types, too many dimensions)

---
 src/ty.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..68e918d 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -89,7 +89,10 @@ impl Type {
 }
 
 pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
-    fn get_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+    fn get_type(
+        c: &mut wtf_8::Wtf8CodePoints,
+        allow_method: bool,
+    ) -> Result<Type, crate::error::Error> {
         let next_codepoint = c.next();
         Ok(match next_codepoint.map(|c| c.to_char_lossy()) {
             Some('B') => Type::Byte,
@@ -115,15 +118,17 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        crate::error::Error::Invalid("array type", "too many dimensions".into())
+                    })?;
                 }
-                let r = get_type(c)?;
+                let r = get_type(c, false)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
-            Some('(') => {
+            Some('(') if allow_method => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(get_type(c, false)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -131,9 +136,10 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(get_type(c, false)?))
                         },
                     }
                 }
@@ -147,7 +153,15 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let mut c = s.codepoints();
+    let ty = get_type(&mut c, true)?;
+    match c.next() {
+        None => Ok(ty),
+        Some(ch) => Err(crate::error::Error::Invalid(
+            "character after type",
+            format!("{ch:?}").into(),
+        )),
+    }
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From ab9110c8257ac6b927b9555430da86d1e449fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:54 +0000
Subject: [PATCH 02/24] fix: keep lone surrogates when writing descriptors to
 the constant pool

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 2 +-
 src/rw.rs             | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..51a4959 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ffe9eea 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -252,7 +252,7 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into())
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..a5140ac 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From 5a269268e5e6dfd5c914e0ef4f44a9dbed41f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 03/24] fix: write putstatic for static field stores

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From fed45bd099188555f253b7956f34034ccd7dc718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:56 +0000
Subject: [PATCH 04/24] fix: read dynamic constants loaded by ldc

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..ece46ba 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -73,8 +73,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From dcaea5777b728ab29f5fd45940414490e81ced3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:02 +0000
Subject: [PATCH 05/24] fix: read and write array creation instructions
 faithfully

---
 src/code/convert.rs | 89 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 7 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index ece46ba..4eea1c2 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -2,6 +2,8 @@ use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::io::Cursor;
 
+use wtf_8::Wtf8Str;
+
 use super::Instruction;
 use super::Instruction::*;
 use crate::constants::insn::*;
@@ -358,19 +360,33 @@ impl Conv {
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
             I::ANewArray(r) => NewArray(
-                try_cp_read!(
+                Self::class_to_type(try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )?)?,
                 1,
             ),
             I::MultiANewArray(r, dim) => NewArray(
-                try_cp_read!(
+                match Self::class_to_type(try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )?)? {
+                    // One dimension is the same as `anewarray`/`newarray` of the component type.
+                    OrDynamic::Static(Type::ArrayRef(1, ty)) if dim == 1 => OrDynamic::Static(*ty),
+                    OrDynamic::Static(Type::ArrayRef(n, ty)) if dim == 1 => {
+                        OrDynamic::Static(Type::ArrayRef(n - 1, ty))
+                    }
+                    OrDynamic::Static(Type::ArrayRef(n, ty)) if dim != 0 && n >= dim => {
+                        OrDynamic::Static(Type::ArrayRef(n, ty))
+                    }
+                    OrDynamic::Dynamic(d) if dim != 0 => OrDynamic::Dynamic(d),
+                    _ => {
+                        return Err(Error::Invalid(
+                            "MultiANewArray dimensions",
+                            dim.to_string().into(),
+                        ))
+                    }
+                },
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -418,6 +434,26 @@ impl Conv {
         })
     }
 
+    /// The type that a class constant denotes: either an array type or the name of a class.
+    fn class_to_type(class: OrDynamic<Cow<'static, Wtf8Str>>) -> Result<OrDynamic<Type>> {
+        Ok(match class {
+            OrDynamic::Static(c) if c.codepoints().next().map_or(false, |x| x == '[') => {
+                OrDynamic::Static(parse_type(&c)?)
+            }
+            c => c.map_static(Type::Ref),
+        })
+    }
+
+    /// Inserts the class constant that denotes a class or array type.
+    fn insert_type_class<W: ConstantPoolWriter>(cp: &mut W, ty: &OrDynamic<Type>) -> u16 {
+        cp.insert_ordynamic(ty.clone(), |w, ty| {
+            w.insert_class(match ty {
+                Type::Ref(c) => c,
+                ty => Cow::Owned((&ty).into()),
+            })
+        })
+    }
+
     pub(crate) fn write_insn<'a, W: ConstantPoolWriter>(
         mut cursor: Cursor<Vec<u8>>,
         jumps: &mut Vec<&'a Instruction>,
@@ -704,7 +740,46 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(ref ty, dim) => {
+                let primitive = match ty {
+                    OrDynamic::Static(Type::Boolean) => Some(4u8),
+                    OrDynamic::Static(Type::Char) => Some(5),
+                    OrDynamic::Static(Type::Float) => Some(6),
+                    OrDynamic::Static(Type::Double) => Some(7),
+                    OrDynamic::Static(Type::Byte) => Some(8),
+                    OrDynamic::Static(Type::Short) => Some(9),
+                    OrDynamic::Static(Type::Int) => Some(10),
+                    OrDynamic::Static(Type::Long) => Some(11),
+                    _ => None,
+                };
+                match (primitive, ty, dim) {
+                    (Some(code), _, 1) => {
+                        NEWARRAY.write_to(&mut cursor)?;
+                        code.write_to(&mut cursor)?;
+                    }
+                    (None, OrDynamic::Static(Type::Ref(_) | Type::ArrayRef(..)), 1)
+                    | (None, OrDynamic::Dynamic(_), 1) => {
+                        ANEWARRAY.write_to(&mut cursor)?;
+                        Self::insert_type_class(cp, ty).write_to(&mut cursor)?;
+                    }
+                    (None, OrDynamic::Static(Type::ArrayRef(n, _)), 2..) if *n >= dim => {
+                        MULTIANEWARRAY.write_to(&mut cursor)?;
+                        Self::insert_type_class(cp, ty).write_to(&mut cursor)?;
+                        dim.write_to(&mut cursor)?;
+                    }
+                    (None, OrDynamic::Dynamic(_), 2..) => {
+                        MULTIANEWARRAY.write_to(&mut cursor)?;
+                        Self::insert_type_class(cp, ty).write_to(&mut cursor)?;
+                        dim.write_to(&mut cursor)?;
+                    }
+                    _ => {
+                        return Err(Error::Invalid(
+                            "NewArray",
+                            format!("{ty:?} with {dim} dimension(s)").into(),
+                        ))
+                    }
+                }
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
-- 
2.43.0


From 06d93028568298dec58cf8efbf72e6aefa0b3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:58 +0000
Subject: [PATCH 06/24] fix: write line numbers, and keep every line number of
 a position when reading

---
 src/code.rs         | 49 ++++++++++++++++++++++++++++++---------------
 src/code/convert.rs |  4 ++--
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..841214e 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -157,7 +157,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx
+                            .get(&(off as u32))
+                            .ok_or_else(|| Error::Invalid("index", format!("{off}").into()))?;
+                        to_insert.entry(idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -221,8 +224,6 @@ impl ConstantPoolReadWrite for Code {
                 local_vars.into_values().collect(),
             ));
         }
-        instructions.reserve(to_insert.len());
-        instructions.reserve(labeler.labels.len());
         for (k, v) in labeler.labels {
             to_insert
                 .entry(
@@ -231,17 +232,19 @@ impl ConstantPoolReadWrite for Code {
                         .ok_or_else(|| Error::Invalid("index", format!("{k}").into()))?,
                 )
                 .or_default()
-                .push(Label(v));
+                .insert(0, Label(v));
         }
-        for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
-                instructions.insert(k, i)
-            }
+        let mut code = Vec::with_capacity(instructions.len() + to_insert.len());
+        let end = to_insert.remove(&instructions.len());
+        for (idx, insn) in instructions.into_iter().enumerate() {
+            code.extend(to_insert.remove(&idx).into_iter().flatten());
+            code.push(insn);
         }
+        code.extend(end.into_iter().flatten());
         Ok(Code {
             max_stack,
             max_locals,
-            code: instructions,
+            code,
             catches,
             attrs,
         })
@@ -259,7 +262,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<((usize, usize), u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -490,6 +493,17 @@ impl ConstantPoolReadWrite for Code {
             catches: &'a Vec<Catch>,
         }
 
+        impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
+            /// The offset in the code array of a position in one of the buffers.
+            fn offset(&self, (buf_off, inner_off): (usize, usize)) -> u16 {
+                (if buf_off == 0 {
+                    0
+                } else {
+                    self.indices[buf_off - 1] as u16
+                }) + (inner_off as u16)
+            }
+        }
+
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
             #[inline]
             fn insert_raw(&mut self, value: RawConstantEntry) -> u16 {
@@ -502,12 +516,7 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                (if buf_off == 0 {
-                    0
-                } else {
-                    self.indices[buf_off - 1] as u16
-                }) + (inner_off as u16)
+                self.offset(*self.labels.get(lbl).unwrap())
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -601,6 +610,14 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let lines = line_numbers
+                .iter()
+                .map(|&(pos, line)| LineNumber(labeler.offset(pos), line))
+                .collect();
+            CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 4eea1c2..3c34ca7 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -459,7 +459,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<((usize, usize), u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -876,7 +876,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push(((buf.len(), cursor.position() as usize), ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From 3265594c292dedaaa9c4c55407a2df3dcf1d60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:29 +0000
Subject: [PATCH 07/24] fix: lay out wide jumps correctly and reject code
 longer than 65535 bytes

---
 src/code.rs | 166 +++++++++++++++++++++++++---------------------------
 1 file changed, 80 insertions(+), 86 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 841214e..7c89b9a 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -284,29 +284,9 @@ impl ConstantPoolReadWrite for Code {
             )?;
         }
         buf.push(cursor.into_inner());
-        let mut index_hints = Vec::new();
-        let mut last_max_index = 0usize;
-        let mut buf_iter = buf.iter();
-        // Get minimum/maximum starting index of the next buffer, that is: index_hints[n] is max of buf[n + 1] resulting index.
-        for j in &jumps {
-            let this_size_max = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => 11 + table.len() * 8,
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => 15 + offsets.len() * 4, // +3 alignment
-                Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
-                Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
-                // other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_max_index += this_size_max + buf_iter.next().unwrap().len();
-            index_hints.push(last_max_index);
-        }
         /*
-        determine the actual size by partially resolving the label through index_hints
-            Optimize for possible non-wide jumps, and convert conditional jumps to make it wide-compatible:
+        determine the actual size by starting with non-wide jumps and widening those that cannot
+        reach their target until all of them do. Conditional jumps are converted to make it wide-compatible:
             such as:
                 ifnull far_away
                 ops
@@ -317,75 +297,85 @@ impl ConstantPoolReadWrite for Code {
                     ops
         */
         // Where the elements of `buf` end up.
-        let mut actual_indices = Vec::new();
-        // the index at the opcode byte of the jump instruction.
-        let mut last_idx = 0;
-        buf_iter = buf.iter();
-        let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
-            let actual_size = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => {
-                    // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
-                    // default target begins if there was no padding.
-
-                    // Calculate the modulus and find the padding.
-                    // 0 1 2 3 4
-                    // * * * * x -> * * * * x (0 -> 0)
-                    // * * * x   -> * * * p x (3 -> 1)
-                    // * * x     -> * * p p x (2 -> 2)
-                    // * x       -> * p p p x (1 -> 3)
-
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 8 + table.len() * 8
-                }
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => {
-                    // see comments above for finding the padding.
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 12 + offsets.len() * 4
-                }
-                Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        4
+        let mut actual_indices: Vec<usize> = Vec::new();
+        // Whether the target of each jump is too far away for a 16-bit offset.
+        let mut wide_jumps = vec![false; jumps.len()];
+        let mut sizes_of_jump_insns: Vec<usize> = Vec::new();
+        loop {
+            actual_indices.clear();
+            sizes_of_jump_insns.clear();
+            // the index at the opcode byte of the jump instruction.
+            let mut last_idx = 0;
+            let mut buf_iter = buf.iter();
+            for (j, wide) in jumps.iter().zip(&wide_jumps) {
+                last_idx += buf_iter.next().unwrap().len();
+                let actual_size = 1 + match *j {
+                    Instruction::LookupSwitch { default: _, table } => {
+                        // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
+                        // default target begins if there was no padding.
+
+                        // Calculate the modulus and find the padding.
+                        // 0 1 2 3 4
+                        // * * * * x -> * * * * x (0 -> 0)
+                        // * * * x   -> * * * p x (3 -> 1)
+                        // * * x     -> * * p p x (2 -> 2)
+                        // * x       -> * p p p x (1 -> 3)
+
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 8 + table.len() * 8
                     }
-                }
-                Instruction::Jump(_, target) => {
+                    Instruction::TableSwitch {
+                        default: _,
+                        low: _,
+                        offsets,
+                    } => {
+                        // see comments above for finding the padding.
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 12 + offsets.len() * 4
+                    }
+                    Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) if *wide => 4,
+                    Instruction::Jump(_, _) if *wide => 7,
+                    Instruction::Jsr(_) | Instruction::Jump(_, _) => 2,
+                    // SAFETY: other variants are not inserted
+                    _ => unreachable!(),
+                };
+                last_idx += actual_size;
+                sizes_of_jump_insns.push(actual_size);
+                actual_indices.push(last_idx);
+            }
+            let mut widened = false;
+            for (i, j) in jumps.iter().enumerate() {
+                if let Instruction::Jsr(target) | Instruction::Jump(_, target) = *j {
                     let (buf_idx, buf_off) = get_label!(target);
                     let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
+                        actual_indices[buf_idx - 1]
                     } else {
                         0
                     } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        7
+                    let jump_off = actual_indices[i] - sizes_of_jump_insns[i];
+                    if !wide_jumps[i] && i16::try_from(target_off as i64 - jump_off as i64).is_err()
+                    {
+                        wide_jumps[i] = true;
+                        widened = true;
                     }
                 }
-                // SAFETY: other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_idx += actual_size;
-            sizes_of_jump_insns.push(actual_size);
-            actual_indices.push(last_idx);
+            }
+            if !widened {
+                break;
+            }
         }
+        let last_idx = actual_indices.last().copied().unwrap_or(0);
         // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
-        code_len.write_to(writer)?; // u4 code_length
+        let code_len = buf.last().unwrap().len() + last_idx;
+        if code_len > u16::MAX as usize {
+            return Err(Error::Invalid(
+                "code length",
+                format!("{code_len} is greater than 65535").into(),
+            ));
+        }
+        (code_len as u32).write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
         writer.write_all(&buf_iter.next().unwrap())?;
@@ -408,10 +398,12 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
-                        $non_wide
-                    } else {
+                    if wide_jumps[i] {
                         $wide
+                    } else {
+                        // Jumps that do not fit are widened.
+                        let $off = $off as i16;
+                        $non_wide
                     }
                 }};
             }
@@ -475,9 +467,11 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        // Skip this instruction (3) and the `goto_w` (5).
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        // The offset is relative to the `goto_w`.
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 307f23d3d755d2c25564534e71dd80bf2de08e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 08/24] fix: report unknown labels, reversed ranges and missing
 catches when writing code; don't overflow on variable ranges when reading

---
 src/annotation/type_annotation.rs |  5 +++-
 src/code.rs                       | 50 ++++++++++++++++++++++++++-----
 src/code/structure.rs             |  6 ++--
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..3ac0ec6 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -73,8 +73,11 @@ impl ConstantPoolReadWrite for LocalVarTarget {
     ) -> crate::Result<()> {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
+        let len = end
+            .checked_sub(start)
+            .ok_or_else(|| crate::Error::Invalid("range", format!("{start}..{end}").into()))?;
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        len.write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 7c89b9a..0d29013 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -77,7 +77,14 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
+        let code_len = u32::read_from(reader)?;
+        if code_len > u16::MAX as u32 {
+            return Err(Error::Invalid(
+                "code length",
+                format!("{code_len} is greater than 65535").into(),
+            ));
+        }
+        let mut code = vec![0; code_len as usize];
         reader.read_exact(&mut code)?;
         let mut labeler = Labeler {
             inner: cp,
@@ -166,7 +173,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -189,7 +196,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
@@ -485,6 +492,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label that was referenced but is not present in the code.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
@@ -496,6 +505,25 @@ impl ConstantPoolReadWrite for Code {
                     self.indices[buf_off - 1] as u16
                 }) + (inner_off as u16)
             }
+
+            /// The start and the length of a range of code.
+            fn range(&mut self, start: &Label, end: &Label) -> Result<(u16, u16)> {
+                let start = self.label(start);
+                let end = self.label(end);
+                self.check()?;
+                match end.checked_sub(start) {
+                    Some(len) => Ok((start, len)),
+                    None => Err(Error::Invalid("range", format!("{start}..{end}").into())),
+                }
+            }
+
+            /// Errors if a label was referenced that is not present in the code.
+            fn check(&self) -> Result<()> {
+                match self.missing {
+                    Some(l) => Err(Error::Invalid("referenced label", l.0.to_string().into())),
+                    None => Ok(()),
+                }
+            }
         }
 
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
@@ -510,7 +538,13 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                self.offset(*self.labels.get(lbl).unwrap())
+                match self.labels.get(lbl) {
+                    Some(pos) => self.offset(*pos),
+                    None => {
+                        self.missing = Some(*lbl);
+                        0
+                    }
+                }
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -527,6 +561,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -561,8 +596,7 @@ impl ConstantPoolReadWrite for Code {
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let (start, len) = labeler.range(&lc.start, &lc.end)?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -572,8 +606,7 @@ impl ConstantPoolReadWrite for Code {
                             })
                         }
                         if let Some(ref sig) = lc.signature {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let (start, len) = labeler.range(&lc.start, &lc.end)?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -612,6 +645,7 @@ impl ConstantPoolReadWrite for Code {
                 .collect();
             CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
         }
+        labeler.check()?;
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
diff --git a/src/code/structure.rs b/src/code/structure.rs
index ffe9eea..03a521c 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -456,8 +456,10 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid(
+                "referenced catch",
+                format!("{self:?}").into(),
+            )),
         }
     }
 }
-- 
2.43.0


From a89334b9ccfb17a3d0a7d031afdf1989c442bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:24 +0000
Subject: [PATCH 09/24] fix: keep the order of local variables

---
 src/code.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 0d29013..e942ae2 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,8 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::Entry;
+use indexmap::IndexMap;
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -153,9 +154,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap is used to keep their order and to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
-- 
2.43.0


From 2b7c720a068e8917fcebb632bfd1c06afe5e42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:25 +0000
Subject: [PATCH 10/24] fix: write annotation elements in a deterministic order

---
 src/annotation/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 51a4959..5ef3682 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -241,7 +241,10 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     ) -> Result<(), Error> {
         let size = self.len() as u16;
         size.write_to(writer)?;
-        for (k, e) in self {
+        // The iteration order of a map differs between instances.
+        let mut pairs: Vec<_> = self.iter().collect();
+        pairs.sort_by(|(a, _), (b, _)| a.cmp(b));
+        for (k, e) in pairs {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
         }
-- 
2.43.0


From f14abfb357138ded8072ba5b9c60dd0cef468ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:27 +0000
Subject: [PATCH 11/24] fix: reject impossible switch tables instead of
 overflowing or dropping entries

---
 src/code.rs         | 11 ++++++++++-
 src/code/convert.rs | 18 +++++++++++-------
 src/insn.rs         | 11 ++++++++---
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index e942ae2..9b56a78 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -445,7 +445,16 @@ impl ConstantPoolReadWrite for Code {
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    let high = i32::try_from(*low as i64 + offsets.len() as i64 - 1)
+                        .ok()
+                        .filter(|high| low <= high)
+                        .ok_or_else(|| {
+                            Error::Invalid(
+                                "tableswitch range",
+                                format!("{} offset(s) from {low}", offsets.len()).into(),
+                            )
+                        })?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3c34ca7..354e039 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::io::Cursor;
 
+use indexmap::IndexMap;
 use wtf_8::Wtf8Str;
 
 use super::Instruction;
@@ -273,13 +274,16 @@ impl Conv {
                 low,
                 offsets: offsets.into_iter().map(|i| lbl!(i)).collect(),
             },
-            I::LookupSwitch(dflt, switches) => LookupSwitch {
-                default: lbl!(dflt),
-                table: switches
-                    .into_iter()
-                    .map(|SwitchEntry(i, to)| (i, lbl!(to)))
-                    .collect(),
-            },
+            I::LookupSwitch(dflt, switches) => {
+                let default = lbl!(dflt);
+                let mut table = IndexMap::with_capacity(switches.len());
+                for SwitchEntry(i, to) in switches {
+                    if table.insert(i, lbl!(to)).is_some() {
+                        return Err(Error::Invalid("duplicate lookupswitch key", i.to_string().into()));
+                    }
+                }
+                LookupSwitch { default, table }
+            }
 
             I::GetStatic(field) => Field(
                 Get,
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..7a2746c 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if low > high {
+            return Err(crate::Error::Invalid(
+                "tableswitch range",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From 51e9693a78f0224047b7c4103152d4dab24c367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:27 +0000
Subject: [PATCH 12/24] fix: use the specified verification type tags for long
 and double

---
 src/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index 9b56a78..5c1432a 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -668,8 +668,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From 22b17141d907f8647ddfaf1dac0c0aaff23d949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:06 +0000
Subject: [PATCH 13/24] fix: report constant pools that are too large, and
 don't overflow on a long in the last slot

---
 src/cp.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..3c8f9b1 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -113,7 +113,7 @@ pub struct VecCp {
     entries: Vec<RawConstantEntry>,
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
-    len: u16,
+    len: u32,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -156,12 +156,12 @@ impl Default for MapCp {
 impl ReadWrite for MapCp {
     fn read_from<T: Read>(reader: &mut T) -> Result<Self> {
         let mut cp = MapCp::new();
-        let count = u16::read_from(reader)?;
+        let count = u16::read_from(reader)? as u32;
         let mut i = 1;
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
-            let idx = i;
-            i += entry.size();
+            let idx = i as u16;
+            i += entry.size() as u32;
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
@@ -206,7 +206,10 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        self.len.write_to(writer)?;
+        let len = u16::try_from(self.len).map_err(|_| {
+            Error::Invalid("constant pool", format!("{} is too large", self.len).into())
+        })?;
+        len.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
         }
@@ -219,8 +222,9 @@ impl ConstantPoolWriter for VecCp {
         match self.cache.entry(value.clone()) {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
-                let idx = self.len;
-                self.len += value.size();
+                // Writing the pool fails if the index does not fit.
+                let idx = self.len as u16;
+                self.len += value.size() as u32;
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From c1e819339bfa2708447a3969f734328e9b2a79db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:39 +0000
Subject: [PATCH 14/24] fix: write one consistent bootstrap method table,
 reject dangling and cyclic references, and check the lengths of a class's
 lists

---
 src/clazz.rs   | 67 ++++++++++++++++++++++++++++----------------------
 src/cp.rs      | 52 ++++++++++++++++++++++++++++++++++-----
 src/dynamic.rs |  3 ++-
 src/helper.rs  |  9 +++++++
 4 files changed, 95 insertions(+), 36 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..56a6c75 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,15 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
-                }
+                cp.bootstrap_methods(
+                    c.attributes
+                        .iter()
+                        .find_map(|attr| match attr {
+                            ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                            _ => None,
+                        })
+                        .unwrap_or(&[]),
+                )?;
                 Ok(Class {
                     version,
                     access: c.access,
@@ -69,14 +72,16 @@ impl ReadWrite for Class {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        let mut bsm = vec![];
+        let mut cp = VecCp::new();
+        let mut has_bsm = false;
         for a in &self.attributes {
             if let ClassAttribute::BootstrapMethods(b) = a {
-                bsm.extend_from_slice(b);
+                has_bsm = true;
+                for bsm in b {
+                    cp.insert_bsm(bsm.clone());
+                }
             }
         }
-        let mut cp = VecCp::new();
-        cp.bsm = bsm;
 
         JVM_MAGIC.write_to(writer)?;
         self.version.write_to(writer)?;
@@ -88,45 +93,49 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        h::write_len16(self.interfaces.len(), &mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        h::write_len16(self.fields.len(), &mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        h::write_len16(self.methods.len(), &mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut attributes = 0;
+        let mut attributes_buf = vec![];
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                _ => {
+                    attributes += 1;
+                    a.write_to(&mut cp, &mut attributes_buf)?;
+                }
             }
         }
-        if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
-            let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+        if has_bsm || !cp.bsm.is_empty() {
+            attributes += 1;
+            let mut bsms_buf = vec![];
+            let mut bsms = 0;
+            // Dynamic arguments may add more bootstrap methods.
+            while let Some(bsm) = cp.bsm.get(bsms).cloned() {
+                bsm.write_to(&mut cp, &mut bsms_buf)?;
+                bsms += 1;
             }
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
-                &mut buf
+                &mut attributes_buf
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut buf)?;
-            i.write_to(&mut buf)?;
-            buf.write_all(&buf2)?;
+            (bsms_buf.len() as u32 + 2).write_to(&mut attributes_buf)?;
+            h::write_len16(bsms, &mut attributes_buf)?;
+            attributes_buf.write_all(&bsms_buf)?;
         }
+        h::write_len16(attributes, &mut buf)?;
+        buf.write_all(&attributes_buf)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
         Ok(())
diff --git a/src/cp.rs b/src/cp.rs
index 3c8f9b1..ff43035 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -99,6 +99,9 @@ impl RawConstantEntry {
     }
 }
 
+/// How many levels of dynamic bootstrap arguments are supported when reading.
+const MAX_BSM_NESTING: usize = 255;
+
 /// A simple constant pool reader implementation using hashmaps for constant entries and bootstrap method references.
 #[derive(Debug)]
 pub struct MapCp {
@@ -115,6 +118,7 @@ pub struct VecCp {
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
     len: u32,
     pub(crate) bsm: Vec<BootstrapMethod>,
+    bsm_cache: HashMap<BootstrapMethod, u16>,
 }
 impl VecCp {
     /// Creates an empty constant pool.
@@ -125,6 +129,7 @@ impl VecCp {
             cache: HashMap::new(),
             len: 1,
             bsm: vec![],
+            bsm_cache: HashMap::new(),
         }
     }
 }
@@ -182,6 +187,35 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        // Arguments may be dynamic themselves. Resolve the methods level by level to make sure that
+        // they aren't cyclic (such values can't be resolved or written) or nested too deeply.
+        let targets: HashMap<_, _> = self
+            .refs
+            .iter()
+            .flat_map(|(i, cells)| cells.iter().map(|c| (Arc::as_ptr(c), *i as usize)))
+            .collect();
+        let mut resolved = vec![false; bsms.len()];
+        let mut pending: Vec<usize> = (0..bsms.len()).collect();
+        for _ in 0..MAX_BSM_NESTING {
+            let (ready, rest): (Vec<_>, Vec<_>) = pending.iter().partition(|&&i| {
+                bsms[i].arguments.iter().all(|arg| match arg {
+                    OrDynamic::Dynamic(d) => targets
+                        .get(&Arc::as_ptr(&d.bsm))
+                        .map_or(true, |&t| resolved.get(t).copied().unwrap_or(true)),
+                    OrDynamic::Static(_) => true,
+                })
+            });
+            for i in ready {
+                resolved[i] = true;
+            }
+            pending = rest;
+        }
+        if let Some(i) = pending.first() {
+            return Err(Error::Invalid(
+                "bootstrap method",
+                format!("arguments of {i} are cyclic or nested too deeply").into(),
+            ));
+        }
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
@@ -189,10 +223,10 @@ impl ConstantPoolReader for MapCp {
                 }
             }
         }
-        if let Some((_, v)) = self.refs.iter().find(|(_, v)| !v.is_empty()) {
+        if let Some(i) = self.refs.keys().min() {
             Err(Error::Invalid(
                 "reference(s) to bootstrap method",
-                Cow::from(format!("{:?}", v)),
+                Cow::from(i.to_string()),
             ))
         } else {
             Ok(())
@@ -233,8 +267,14 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        match self.bsm_cache.entry(bsm) {
+            Entry::Occupied(e) => *e.get(),
+            Entry::Vacant(e) => {
+                // Writing the class fails if the index does not fit.
+                let idx = self.bsm.len() as u16;
+                self.bsm.push(e.key().clone());
+                *e.insert(idx)
+            }
+        }
     }
 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..7e7ff65 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -91,7 +91,8 @@ impl Eq for Dynamic {}
 
 impl Hash for Dynamic {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.bsm.get().hash(state);
+        // The arguments may share other dynamic values, don't visit all of them.
+        self.bsm.get().map(|bsm| &bsm.handle).hash(state);
         self.name.hash(state);
         self.descriptor.hash(state);
     }
diff --git a/src/helper.rs b/src/helper.rs
index 67a7814..f63e7e5 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -117,6 +117,15 @@ impl<T: ReadWrite> ReadWriteAs<T> for Identity {
     }
 }
 
+/// Writes the number of elements of something as a `u16`.
+pub(crate) fn write_len16<W: Write>(len: usize, writer: &mut W) -> crate::Result<()> {
+    u16::try_from(len)
+        .map_err(|_| {
+            Error::Invalid("length", format!("{len} does not fit in a `u16`").into())
+        })?
+        .write_to(writer)
+}
+
 pub struct VecLen<Helper, T>(PhantomData<(Helper, T)>);
 
 impl<Helper: ReadWriteAs<T>, T, L> ReadWriteAs<Vec<T>> for VecLen<Helper, L>
-- 
2.43.0


From c052789f1567bdcc66d471d9fcc730d6ac244e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:16 +0000
Subject: [PATCH 15/24] fix: report lengths that don't fit instead of
 truncating them

---
 src/annotation/mod.rs | 5 ++---
 src/code.rs           | 8 ++++----
 src/dynamic.rs        | 2 +-
 src/rw.rs             | 2 +-
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 5ef3682..cb0c8bd 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                h::write_len16(v.len(), writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,8 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
-        size.write_to(writer)?;
+        h::write_len16(self.len(), writer)?;
         // The iteration order of a map differs between instances.
         let mut pairs: Vec<_> = self.iter().collect();
         pairs.sort_by(|(a, _), (b, _)| a.cmp(b));
diff --git a/src/code.rs b/src/code.rs
index 5c1432a..547f2c5 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -565,7 +565,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        h::write_len16(self.catches.len(), writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -656,7 +656,7 @@ impl ConstantPoolReadWrite for Code {
             CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
         }
         labeler.check()?;
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        h::write_len16(self.attrs.len() + extra_attrs, writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -786,11 +786,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                h::write_len16(locals.len(), writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                h::write_len16(stack.len(), writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 7e7ff65..25e5e24 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        h::write_len16(self.arguments.len(), writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/rw.rs b/src/rw.rs
index a5140ac..6297641 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        crate::helper::write_len16(string.len(), writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From 744a9b2c9df0b5fa0de95ddc8c8288f80a91c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:57 +0000
Subject: [PATCH 16/24] fix: don't allocate what an attribute length claims
 before reading it

---
 coffer_macros/src/derive.rs |  6 ++----
 src/helper.rs               | 11 +++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..f3c4c3a 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::helper::read_bytes(len, #reader)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::helper::read_bytes(byte_size, #reader)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/helper.rs b/src/helper.rs
index f63e7e5..42b1c49 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -126,6 +126,17 @@ pub(crate) fn write_len16<W: Write>(len: usize, writer: &mut W) -> crate::Result
         .write_to(writer)
 }
 
+/// Reads an exact number of bytes, without allocating more memory than there is input.
+pub(crate) fn read_bytes<R: Read>(len: u32, reader: &mut R) -> crate::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(len as u64).read_to_end(&mut bytes)?;
+    if bytes.len() == len as usize {
+        Ok(bytes)
+    } else {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 pub struct VecLen<Helper, T>(PhantomData<(Helper, T)>);
 
 impl<Helper: ReadWriteAs<T>, T, L> ReadWriteAs<Vec<T>> for VecLen<Helper, L>
-- 
2.43.0


From 9f85945bc66b2a0378aa6d13d5ab6d0563f34815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 17/24] fix: reject malformed surrogate pairs in modified UTF-8

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From f198eb56d2d2fdbb9408a584acd3813c4d20747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 18/24] fix: parse and print signatures exactly (thrown type
 variables, interface bounds, malformed text)

---
 src/signature.rs | 138 +++++++++++++++++++++++------------------------
 1 file changed, 69 insertions(+), 69 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..47d5526 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,18 +177,17 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("array signature", "too many dimensions"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
         }
         Some('T') => {
-            let semi = i.find(';').ok_or_else(unexpected_end)?;
-            let type_var = i[1..semi].to_string();
-            Ok((
-                &i[semi + 1..],
-                RefTypeSignature::TypeVariable(type_var.into()),
-            ))
+            let (i, type_var) = ident(&i[1..])?;
+            let (i, ()) = char::<';'>(i)?;
+            Ok((i, RefTypeSignature::TypeVariable(type_var)))
         }
         Some('L') => {
             let (i, sig) = class_type_sig(i)?;
@@ -210,6 +209,18 @@ fn char<const C: char>(i: &str) -> IResult<'_, ()> {
     }
 }
 
+// Identifier:
+// a non-empty sequence of characters other than . ; [ / < > :
+fn ident(i: &str) -> IResult<'_, Cow<'static, str>> {
+    let end = i
+        .find(['.', ';', '[', '/', '<', '>', ':'])
+        .unwrap_or(i.len());
+    if end == 0 {
+        return Err(invalid("signature", "expected an identifier"));
+    }
+    Ok((&i[end..], i[..end].to_string().into()))
+}
+
 fn throws(i: &str) -> IResult<'_, Throws> {
     let (i, ()) = char::<'^'>(i)?;
     match i.chars().next() {
@@ -218,9 +229,9 @@ fn throws(i: &str) -> IResult<'_, Throws> {
             Ok((i, Throws::Class(sig)))
         }
         Some('T') => {
-            let semi = i.find(';').ok_or_else(unexpected_end)?;
-            let type_var = i[1..semi].to_string();
-            Ok((&i[semi + 1..], Throws::TypeParameter(type_var.into())))
+            let (i, type_var) = ident(&i[1..])?;
+            let (i, ()) = char::<';'>(i)?;
+            Ok((i, Throws::TypeParameter(type_var)))
         }
         Some(c) => Err(invalid("character for thrown type signature", c)),
         None => Err(unexpected_end()),
@@ -256,38 +267,16 @@ fn class_type_sig(i: &str) -> IResult<'_, ClassTypeSignature> {
 // PackageSpecifier:
 // Identifier / {PackageSpecifier}
 fn packages(i: &str) -> IResult<'_, Vec<Cow<'static, str>>> {
-    let bytes = i.as_bytes();
+    let mut i = i;
     let mut vec = vec![];
-    let mut n = 0;
-    let mut str = Vec::new();
-    // The index of the last slash.
-    let mut last = usize::MAX;
     loop {
-        match bytes.get(n) {
-            // If there is a slash, it is a package directive. Push to the vec and clear out the last string.
-            Some(b'/') => {
-                // the parameter is &str, so it must be valid utf-8.
-                vec.push(Cow::Owned(unsafe { String::from_utf8_unchecked(str) }));
-
-                str = Vec::new();
-                last = n;
-            }
-            // These characters would mean that there is no more package directive and the string we've just built is used for other functions.
-            Some(b';') | Some(b'<') | Some(b'.') => {
-                break if last == usize::MAX {
-                    // there were no slashes found so we just return the whole input string.
-                    Ok((i, vec))
-                } else {
-                    // Returns everything after the last slash.
-                    Ok((&i[(last + 1)..], vec))
-                };
-            }
-            // Push this byte to build the string.
-            Some(b) => str.push(*b),
-            // The string ended but we are still parsing the packages!
-            None => break Err(unexpected_end()),
+        let (rest, name) = ident(i)?;
+        // If there is a slash, it is a package directive. Otherwise it is the name of the class.
+        if rest.as_bytes().first() != Some(&b'/') {
+            break Ok((i, vec));
         }
-        n += 1;
+        i = &rest[1..];
+        vec.push(name);
     }
 }
 
@@ -328,7 +317,8 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
     let mut args = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        // There must be at least one argument.
+        while args.is_empty() || (!i.is_empty() && i.as_bytes().first() != Some(&b'>')) {
             let res = type_arg(i)?;
             i = res.0;
             args.push(res.1);
@@ -341,24 +331,12 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
 }
 
 fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
-    fn type_var_start(c: char) -> bool {
-        c == '<' || c == '.' || c == ';'
-    }
-    let mut chars = i.chars();
-    let mut name = String::new();
-    while chars
-        .as_str()
-        .chars()
-        .next()
-        .map_or(false, |c| !type_var_start(c))
-    {
-        name.push(chars.next().unwrap());
-    }
-    let (i, type_arguments) = type_args(chars.as_str())?;
+    let (i, name) = ident(i)?;
+    let (i, type_arguments) = type_args(i)?;
     Ok((
         i,
         SimpleClassTypeSignature {
-            name: name.into(),
+            name,
             type_arguments,
         },
     ))
@@ -366,21 +344,20 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
-    let mut chars = i.chars();
-    let name = chars
-        .by_ref()
-        .take_while(|&x| x != ':')
-        .collect::<String>()
-        .into();
-    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
+    let (i, name) = ident(i)?;
+    let (i, ()) = char::<':'>(i)?;
+    // Without a class bound, this may be the name of the next parameter.
+    let next_param = ident(i).map_or(false, |(rest, _)| rest.starts_with(':'));
+    let (mut i, class_bound) = if let (Some('T' | '[' | 'L'), false) = (i.chars().next(), next_param)
+    {
+        let (newi, ref_ty_sig) = ref_type_sig(i)?;
         (newi, Some(ref_ty_sig))
     } else {
-        (chars.as_str(), None)
+        (i, None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(':') = i.chars().next() {
+        let (new_i, bound) = ref_type_sig(&i[1..])?;
         interface_bounds.push(bound);
         i = new_i;
     }
@@ -399,7 +376,8 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
     let mut params = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        // There must be at least one parameter.
+        while params.is_empty() || (!i.is_empty() && i.as_bytes().first() != Some(&b'>')) {
             let res = type_parameter(i)?;
             i = res.0;
             params.push(res.1);
@@ -468,6 +446,24 @@ fn class_sig(i: &str) -> IResult<'_, ClassSignature> {
     ))
 }
 
+/// How many levels of type arguments are supported when parsing.
+const MAX_NESTING: usize = 255;
+
+fn check_nesting(s: &str) -> Result<()> {
+    let mut depth = 0usize;
+    for b in s.bytes() {
+        match b {
+            b'<' => depth += 1,
+            b'>' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_NESTING {
+            return Err(invalid("signature", "type arguments are nested too deeply"));
+        }
+    }
+    Ok(())
+}
+
 macro_rules! fromstr_impls {
     ($($ty: ty, $fn: expr),*) => {
         $(
@@ -475,7 +471,11 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    check_nesting(s)?;
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("signature", format!("unexpected '{rest}'"))),
+                    }
                 }
             }
         )*
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 3583f9cf66a70400568c310f93cf5ab5a9a866e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:20 +0000
Subject: [PATCH 19/24] fix: validate the last byte of encoded high surrogates,
 and report the offset of the second half of a surrogate pair

---
 wtf8/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..d3233f9 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1263,17 +1263,16 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                 match n {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         is_high_surrogate = true;
-                        next!();
                         continue;
                     }
                     0xB0..=0xBF => {
                         // Encoded surrogate pairs are invalid.
                         if is_high_surrogate {
-                            return Err(Wtf8Error {
-                                valid_up_to: index - 3,
-                                error_len: NonZeroU8::new(6),
-                            });
+                            err!(3);
                         }
                     }
                     _ => err!(3),
-- 
2.43.0


From eb1fe10d6d8ccfabbb69be4efff5845f54342510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:21 +0000
Subject: [PATCH 20/24] fix: write borrowed UTF-8 constants with their tag and
 length

---
 src/cp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index ff43035..5a89089 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -25,7 +25,9 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
+        let string = mod_utf8::string_to_modified_utf8(self.0);
+        crate::helper::write_len16(string.len(), writer)?;
+        writer.write_all(&string)?;
         Ok(())
     }
 }
@@ -33,6 +35,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0


From 888396d94cd94eabe4e477ba5fdb11e3f80300b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 21/24] fix: reject member and dynamic constants whose
 descriptor is of the wrong kind

---
 src/rw.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rw.rs b/src/rw.rs
index 6297641..37b3f84 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -277,7 +277,8 @@ pub trait ConstantPoolReader {
         match self.read_raw(idx) {
             Some(RawConstantEntry::InvokeDynamic(s, a)) => {
                 let cell = Arc::new(OnceCell::default());
-                let (name, descriptor) = self.read_nameandtype(a)?;
+                let (name, descriptor) =
+                    self.read_nameandtype(a).filter(|(_, t)| t.is_method())?;
                 self.resolve_later(s, cell.clone());
                 Some(Dynamic {
                     bsm: cell,
@@ -292,7 +293,8 @@ pub trait ConstantPoolReader {
         match self.read_raw(idx) {
             Some(RawConstantEntry::Dynamic(s, a)) => {
                 let cell = Arc::new(OnceCell::default());
-                let (name, descriptor) = self.read_nameandtype(a)?;
+                let (name, descriptor) =
+                    self.read_nameandtype(a).filter(|(_, t)| !t.is_method())?;
                 self.resolve_later(s, cell.clone());
                 Some(Dynamic {
                     bsm: cell,
@@ -317,7 +319,9 @@ pub trait ConstantPoolReader {
         }
     }
     fn read_member(&mut self, idx: u16) -> Option<MemberRef> {
-        match self.read_raw(idx) {
+        let entry = self.read_raw(idx);
+        let is_field = matches!(entry, Some(RawConstantEntry::Field(..)));
+        match entry {
             Some(RawConstantEntry::Method(o, nt)) | Some(RawConstantEntry::Field(o, nt)) => self
                 .read_indirect_str(7, o)
                 .and_then(|o| self.read_nameandtype(nt).map(|(n, t)| (o, n, t)))
@@ -338,6 +342,8 @@ pub trait ConstantPoolReader {
                 }),
             _ => None,
         }
+        // Only fields have a field descriptor.
+        .filter(|m| m.descriptor.is_method() != is_field)
     }
 
     /// Registers a bootstrap method to be resolved.
-- 
2.43.0


From b2b73cfff574a60e961505555d9f335800eddd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 22/24] fix: limit the nesting of annotation values when
 reading, and don't allocate what their lengths claim

---
 src/annotation/mod.rs | 55 +++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index cb0c8bd..ef953bd 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -68,9 +68,21 @@ pub enum AnnotationValue {
     Array(Vec<AnnotationValue>),
 }
 
-impl ConstantPoolReadWrite for AnnotationValue {
-    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+/// How many levels of arrays and annotations are supported when reading.
+const MAX_NESTING: u8 = 255;
+
+impl AnnotationValue {
+    fn read_nested<C: ConstantPoolReader, R: Read>(
+        cp: &mut C,
+        reader: &mut R,
+        depth: u8,
+    ) -> Result<Self> {
         let tag = u8::read_from(reader)? as char;
+        let deeper = || {
+            depth
+                .checked_sub(1)
+                .ok_or_else(|| Error::Invalid("annotation value", "nested too deeply".into()))
+        };
         Ok(match tag {
             'B' => AnnotationValue::Byte({
                 let val: i32 = read_from!(cp, reader)?;
@@ -120,18 +132,27 @@ impl ConstantPoolReadWrite for AnnotationValue {
                     Some(parse_type(&str)?)
                 })
             }
-            '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
+            '@' => AnnotationValue::Annotation(Annotation {
+                annotation_type: Type::read_from(cp, reader)?,
+                element_values: read_pairs(cp, reader, deeper()?)?,
+            }),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
-                    values.push(AnnotationValue::read_from(cp, reader)?)
+                    values.push(AnnotationValue::read_nested(cp, reader, deeper()?)?)
                 }
                 AnnotationValue::Array(values)
             }
             _ => return Err(Error::Invalid("Enum value type", tag.to_string().into())),
         })
     }
+}
+
+impl ConstantPoolReadWrite for AnnotationValue {
+    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+        Self::read_nested(cp, reader, MAX_NESTING)
+    }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> {
         fn cp_int<C: ConstantPoolWriter, W: Write, I: Into<i32>>(
@@ -219,19 +240,27 @@ pub struct Annotation {
     pub element_values: HashMap<Cow<'static, Wtf8Str>, AnnotationValue>,
 }
 
+fn read_pairs<C: ConstantPoolReader, R: Read>(
+    cp: &mut C,
+    reader: &mut R,
+    depth: u8,
+) -> Result<HashMap<Cow<'static, Wtf8Str>, AnnotationValue>> {
+    let pairs = u16::read_from(reader)?;
+    let mut element_values = HashMap::new();
+    for _ in 0..pairs {
+        let name = read_from!(cp, reader)?;
+        let value = AnnotationValue::read_nested(cp, reader, depth)?;
+        element_values.insert(name, value);
+    }
+    Ok(element_values)
+}
+
 impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     fn read_from<C: ConstantPoolReader, R: Read>(
         cp: &mut C,
         reader: &mut R,
     ) -> Result<Self, Error> {
-        let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
-        for _ in 0..pairs {
-            let name = read_from!(cp, reader)?;
-            let value = AnnotationValue::read_from(cp, reader)?;
-            element_values.insert(name, value);
-        }
-        Ok(element_values)
+        read_pairs(cp, reader, MAX_NESTING)
     }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(
-- 
2.43.0


From f5c9003a745fb5dc5d62b5e3b32210c24f01193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 23/24] fix: keep the position of local variables among code
 attributes when reading

---
 src/code.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 547f2c5..cc99f1b 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -157,6 +157,8 @@ impl ConstantPoolReadWrite for Code {
         // An IndexMap is used to keep their order and to locate existing local variable data described
         // by an attribute from before.
         let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
+        // The position of the local variables among the other attributes.
+        let mut local_vars_pos = None;
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
@@ -172,6 +174,7 @@ impl ConstantPoolReadWrite for Code {
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
+                    local_vars_pos.get_or_insert(attrs.len());
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
                         let end = labeler.get_label(l.start as u32 + l.len as u32);
@@ -195,6 +198,7 @@ impl ConstantPoolReadWrite for Code {
                     }
                 }
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
+                    local_vars_pos.get_or_insert(attrs.len());
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
                         let end = labeler.get_label(l.start as u32 + l.len as u32);
@@ -228,9 +232,10 @@ impl ConstantPoolReadWrite for Code {
             }
         }
         if !local_vars.is_empty() {
-            attrs.push(CodeAttribute::LocalVariables(
-                local_vars.into_values().collect(),
-            ));
+            attrs.insert(
+                local_vars_pos.unwrap_or(attrs.len()),
+                CodeAttribute::LocalVariables(local_vars.into_values().collect()),
+            );
         }
         for (k, v) in labeler.labels {
             to_insert
-- 
2.43.0


From 732e8c7e0d8769058d4834ce4c9793349b9d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 24/24] fix: report the length of invalid WTF-8 sequences

Wtf8Error::error_len was larger than the number of invalid bytes (even
larger than what was left of the input), and some invalid sequences were
reported as incomplete.
---
 wtf8/src/lib.rs | 66 +++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index d3233f9..8ce4b27 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1245,17 +1245,23 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
             0x00..=0x7F => {}
             0xC2..=0xDF => {
                 if !tail.contains(&next!()) {
-                    err!(2);
+                    err!(1);
                 }
             }
             0xE0 => {
-                if !(0xA0..=0xBF).contains(&next!()) || !tail.contains(&next!()) {
-                    err!(3);
+                if !(0xA0..=0xBF).contains(&next!()) {
+                    err!(1);
+                }
+                if !tail.contains(&next!()) {
+                    err!(2);
                 }
             }
             0xE1..=0xEC | 0xEE..=0xEF => {
-                if !tail.contains(&next!()) || !tail.contains(&next!()) {
-                    err!(3);
+                if !tail.contains(&next!()) {
+                    err!(1);
+                }
+                if !tail.contains(&next!()) {
+                    err!(2);
                 }
             }
             0xED => {
@@ -1264,7 +1270,7 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
                         if !tail.contains(&next!()) {
-                            err!(3);
+                            err!(2);
                         }
                         is_high_surrogate = true;
                         continue;
@@ -1272,40 +1278,46 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0xB0..=0xBF => {
                         // Encoded surrogate pairs are invalid.
                         if is_high_surrogate {
-                            err!(3);
+                            err!(1);
                         }
                     }
-                    _ => err!(3),
+                    _ => err!(1),
                 }
                 if !tail.contains(&next!()) {
-                    err!(3);
+                    err!(2);
                 }
             }
             0xF0 => {
-                let n = next!();
-                let n1 = next!();
-                let n2 = next!();
-                match (n, n1, n2) {
-                    (0x90..=0xBF, 0x80..=0xBF, 0x80..=0xBF) => {}
-                    _ => err!(4),
+                if !(0x90..=0xBF).contains(&next!()) {
+                    err!(1);
+                }
+                if !tail.contains(&next!()) {
+                    err!(2);
+                }
+                if !tail.contains(&next!()) {
+                    err!(3);
                 }
             }
             0xF1..=0xF3 => {
-                let n = next!();
-                let n1 = next!();
-                let n2 = next!();
-                match (n, n1, n2) {
-                    (0x80..=0xBF, 0x80..=0xBF, 0x80..=0xBF) => {}
-                    _ => err!(4),
+                if !tail.contains(&next!()) {
+                    err!(1);
+                }
+                if !tail.contains(&next!()) {
+                    err!(2);
+                }
+                if !tail.contains(&next!()) {
+                    err!(3);
                 }
             }
             0xF4 => {
-                let n = next!();
-                let n1 = next!();
-                let n2 = next!();
-                match (n, n1, n2) {
-                    (0x80..=0x8F, 0x80..=0xBF, 0x80..=0xBF) => {}
-                    _ => err!(4),
+                if !(0x80..=0x8F).contains(&next!()) {
+                    err!(1);
+                }
+                if !tail.contains(&next!()) {
+                    err!(2);
+                }
+                if !tail.contains(&next!()) {
+                    err!(3);
                 }
             }
             _ => err!(1),
-- 
2.43.0

