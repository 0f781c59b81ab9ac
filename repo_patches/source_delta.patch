From d2d41d92dc644c277f788e849599ea0b8c194900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 01/18] fix: read_bytes returns InvalidLength when the padding
 is truncated

The payload was checked against the remaining bytes, but not the padding the
cursor is advanced over, so a buffer ending inside the padding panicked.
---
 src/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..5a89c72 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,15 +133,16 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding.
+            let padding = pad_length(n);
+            if self.remaining() < n || self.remaining() - n < padding {
                 return Err(Error::InvalidLength);
             }
 
             let data = self.slice(..n);
 
             // Advance the buffer cursor, including any padding.
-            self.advance(n + pad_length(n));
+            self.advance(n + padding);
 
             Ok(data)
         }
-- 
2.43.0


From 29e1ffc76416e49c21e030e46f95fc64d2384c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 02/18] fix: read_variable_array does not trust the element
 count or the padding

The Vec was reserved for the count read from the wire before any element was
present, and the final padding was skipped without checking it is there.
---
 src/header.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 5a89c72..f4e31a3 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -160,8 +160,11 @@ pub mod xdr {
             }
 
             // Try and decode n instances of T.
+            //
+            // The count is not trusted for the allocation: no more elements are
+            // reserved than there are bytes left to decode them from.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            let mut out = Vec::with_capacity(n.min(self.remaining()));
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
@@ -172,7 +175,11 @@ pub mod xdr {
                 out.push(t);
             }
 
-            self.advance(pad_length(sum));
+            let padding = pad_length(sum);
+            if self.remaining() < padding {
+                return Err(Error::InvalidLength);
+            }
+            self.advance(padding);
 
             Ok(out)
         }
-- 
2.43.0


From 5721f028b66a7fbdb93ec2a64f09b16580a10a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 03/18] fix: union default arms carry their data

The decoder constructs Self::default(..) with the decoded data, but the variant
was declared without any and sized as void, so the module did not compile.  The
data of the arm keeps its typedef, as in any other arm.
---
 src/impls/from.rs      |  2 +-
 src/impls/types.rs     | 13 +++++++++++--
 src/impls/wire_size.rs | 16 +++++++++++-----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..e40b9b4 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -176,7 +176,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..1a5469d 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -91,8 +91,17 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
+                if let Some(ref d) = v.default {
+                    write!(w, "default(")?;
+                    match d.field_value.unwrap_array() {
+                        BasicType::Opaque => write!(w, "T")?,
+                        BasicType::String => write!(w, "String")?,
+                        BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => {
+                            write!(w, "{}<T>", i)?
+                        }
+                        _ => write!(w, "{}", d.field_value)?,
+                    }
+                    writeln!(w, "),")?;
                 }
 
                 writeln!(w, "}}")?;
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..5326ffc 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -33,9 +33,8 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
                     writeln!(w, "4 + match self {{")?;
-                    // Iterate over all the variants of v, including the
-                    // default.
-                    for case in v.cases.iter().chain(v.default.iter()) {
+                    // Iterate over all the variants of v.
+                    for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
                         //
@@ -64,8 +63,15 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
+                    if let Some(ref d) = v.default {
+                        write!(w, "Self::default(inner) => inner.wire_size()")?;
+
+                        // In-line opaques require padding
+                        if d.contains_opaque() {
+                            writeln!(w, " + pad_length(inner.wire_size()),")?;
+                        } else {
+                            writeln!(w, ",")?;
+                        }
                     }
 
                     writeln!(w, "}}")?;
-- 
2.43.0


From 3ec7bbc48fd84a110f523a564adfee00bc6c6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 04/18] fix: a void default does not shadow the void cases
 after it

The catch-all match arm was written at the position of the default, making the
void labels declared after it unreachable.
---
 src/impls/from.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index e40b9b4..516e290 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -137,7 +137,11 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 
                     // There may also be several "void" cases
                     let mut did_void_default = false;
-                    for c in v.void_cases.iter() {
+                    //
+                    // The default matches anything, so it has to come last.
+                    let void_cases = v.void_cases.iter().filter(|c| *c != "default");
+                    let void_default = v.void_cases.iter().filter(|c| *c == "default");
+                    for c in void_cases.chain(void_default) {
                         let variant = c.as_str();
                         let matcher = match variant {
                             "default" => {
-- 
2.43.0


From 9a3ebf1fe826d2a59172a6bb8e966afce954f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 05/18] fix: void TRUE and FALSE cases match their own value

The labels were written as identifiers, which match any boolean.
---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 516e290..e2cbf07 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -161,7 +161,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From 4222aa49539509c02a2e74b29b6fa4ffd7416ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 06/18] fix: typedefs of opaque and string keep their maximum
 length

The maximum of an opaque typedef was dropped while parsing, so it was never
enforced, and a string typedef with brackets became a Vec<String> that nothing
decodes.
---
 src/ast/typedef.rs | 6 +++++-
 src/impls/from.rs  | 9 +++++++--
 src/impls/types.rs | 6 ++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..4c901d5 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -28,7 +28,11 @@ impl Typedef {
                 // Typedefs to opaque types include a variable array identifier so the
                 // caller knows to read the length prefix bytes. This is already handled
                 // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
+                //
+                // A maximum length has to be kept for the decoder to enforce.
+                Node::ArrayVariable(s) if target.is_opaque() && s.trim().is_empty() => {
+                    ArrayType::None(alias)
+                }
 
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
diff --git a/src/impls/from.rs b/src/impls/from.rs
index e2cbf07..b187b88 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -312,6 +312,7 @@ where
     // Print a length-prefixed variable sized array, or a string with a maximum value.
     let print_variable = |w: &mut W, t: &BasicType, size: Option<u32>| -> Result<()> {
         let mut type_str = t.to_string();
+        let mut field = t.clone();
 
         // If requested, resolve a typedef the type to the target type.
         if !resolve_typedefs.use_alias() {
@@ -319,7 +320,11 @@ where
                 .types()
                 .get(&type_str)
                 .map(|t| t.to_string())
-                .unwrap_or(type_str)
+                .unwrap_or(type_str);
+
+            if let Some(typedef) = ast.types().typedef_target(t.as_str()) {
+                field = typedef.target.clone();
+            }
         }
 
         if ast.generics().contains(type_str.as_str()) {
@@ -330,7 +335,7 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        match field {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 1a5469d..ef63f67 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -126,8 +126,14 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                 //
                 // Wrap the target in the same array as the alias to generate the
                 // array container for the target.
+                //
+                // A string is variable length already, the array identifier is
+                // its maximum length.
                 let target = match &v.alias {
                     ArrayType::None(_) => ArrayType::None(&v.target),
+                    ArrayType::VariableSize(..) if v.target == BasicType::String => {
+                        ArrayType::None(&v.target)
+                    }
                     ArrayType::FixedSize(_, s) => ArrayType::FixedSize(&v.target, s.clone()),
                     ArrayType::VariableSize(_, s) => ArrayType::VariableSize(&v.target, s.clone()),
                 };
-- 
2.43.0


From e2ebc69d1f87088b70bf2c8e62a633412d30d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 07/18] fix: wire_size() of bounded opaques

Struct fields of the form opaque x<..> miss their length prefix, and typedefs of
fixed length opaques count one they do not have.
---
 src/impls/wire_size.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 5326ffc..8adbd1e 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -22,6 +22,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 r#" pad_length(self.{}.wire_size()) +"#,
                                 SafeName(&f.field_name)
                             )?;
+
+                            // As does the length prefix
+                            if let ArrayType::VariableSize(..) = f.field_value {
+                                writeln!(w, " 4 +")?;
+                            }
                         }
                     }
 
@@ -96,9 +101,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
+                        // length prefix adding (if the length is not fixed).
                         if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            match v.alias {
+                                ArrayType::FixedSize(..) => {
+                                    writeln!(w, "+ pad_length(self.0.wire_size())")?
+                                }
+                                _ => writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?,
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From 128e1641c0e7ddfbbc8b7f95525166b8a54eda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 08/18] fix: hex constants as array sizes and maxima

Constants are only parsed as decimals when they size an array, so specifications
using hex ones are refused.
---
 src/impls/from.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index b187b88..55f877a 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -272,6 +272,14 @@ fn try_from(mut v: {}) -> Result<Self, Self::Error> {{"#,
     Ok(())
 }
 
+/// Parses the value of a constant, which may be in hex.
+fn parse_size(size: &str) -> Result<u32> {
+    match size.strip_prefix("0x").or_else(|| size.strip_prefix("0X")) {
+        Some(hex) => Ok(u32::from_str_radix(hex, 16)?),
+        None => Ok(size.parse()?),
+    }
+}
+
 fn print_decode_array<W, T: FromTemplate>(
     w: &mut W,
     template: T,
@@ -358,7 +366,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -371,7 +379,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
-- 
2.43.0


From 747c8aa43f1cdca08d54ca15bc03f9d040fbce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 09/18] fix: no impls for typedefs of a type to itself

print_types() leaves out typedefs such as "unsigned int uint32_t", but decoders
and sizes were written for them, on a primitive.
---
 src/impls/from.rs      | 3 +++
 src/impls/wire_size.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 55f877a..907a7c3 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -205,6 +205,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // No typedefs to self - common types are converted directly.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 8adbd1e..e49c2c4 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -91,6 +91,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // No typedefs to self - common types are converted directly.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From 2dd6fa4bc9272a1b427134303c2c644ae01120d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 10/18] fix: optional data of primitive types

Decoding an optional primitive used the TryFrom impl of a foreign type, which
the generated module does not have.
---
 src/impls/from.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 907a7c3..ebb0350 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -46,12 +46,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             // 		}
                             writeln!(w, "{{ match v.read_u32()? {{")?;
                             writeln!(w, "0 => None,")?;
-                            writeln!(
+                            write!(w, "1 => Some(Box::new(")?;
+                            print_decode_basic_type(
                                 w,
-                                "1 => Some(Box::new({}::try_from({})?)),",
                                 f.field_value.unwrap_array(),
-                                try_from
+                                ast,
+                                TypeResolve::UseAlias,
+                                try_from,
                             )?;
+                            writeln!(w, "?)),")?;
                             writeln!(w, "d => return Err(Error::UnknownOptionVariant(d)),")?;
                             writeln!(w, "}}}},")?;
                         } else {
-- 
2.43.0


From 44592f142f32a38a9987fc631cb96841e3dfaac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 11/18] fix: escape the reserved words of Rust that have no
 meaning yet

A field named "final", "try" or "virtual" does not compile.
---
 src/ast/basic_type.rs | 4 +++-
 src/impls/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..72ff861 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -46,7 +46,9 @@ impl<'a> BasicType {
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..6fe5300 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -23,7 +23,9 @@ where
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From 60431ee30b77e042a662feb0a0283fd3a586f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 12/18] fix: unions switching on typedefs of enums and a
 variable named v

Only one level of typedefs was resolved to decode the discriminant, and none for
the type its labels are cast to.  A discriminant named v shadowed the buffer.
---
 src/impls/from.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index ebb0350..f71cf90 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, Typedef};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -77,18 +77,27 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
             }
 
             AstType::Union(v) => {
+                // A discriminant named as the buffer would shadow it.
+                let var_name = match v.switch.var_name.as_str() {
+                    "v" => "v_v".to_string(),
+                    other => SafeName(other).to_string(),
+                };
+
+                // The type to match on is what the typedefs resolve to.
+                let var_type = resolve_typedefs(&v.switch.var_type, ast);
+
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
-                    write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
+                    write!(w, "let {} = ", var_name)?;
                     print_decode_basic_type(
                         w,
-                        &v.switch.var_type,
+                        &var_type,
                         ast,
                         TypeResolve::UseTarget,
                         try_from,
                     )?;
                     writeln!(w, "?;")?;
 
-                    writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
+                    writeln!(w, "Ok(match {} {{", var_name)?;
                     for c in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
@@ -115,7 +124,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, var_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(c_value).to_string());
@@ -161,7 +170,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, var_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(other).to_string()),
@@ -278,6 +287,25 @@ fn try_from(mut v: {}) -> Result<Self, Self::Error> {{"#,
     Ok(())
 }
 
+/// Follows the typedefs of `t` that do not make it an array.
+fn resolve_typedefs(t: &BasicType, ast: &Ast) -> BasicType {
+    let mut t = t;
+
+    // A chain of typedefs is no longer than the number of types, unless it is a
+    // cycle.
+    for _ in ast.types().iter() {
+        match ast.types().typedef_target(t.as_str()) {
+            Some(Typedef {
+                alias: ArrayType::None(_),
+                target,
+            }) => t = target,
+            _ => break,
+        }
+    }
+
+    t.clone()
+}
+
 /// Parses the value of a constant, which may be in hex.
 fn parse_size(size: &str) -> Result<u32> {
     match size.strip_prefix("0x").or_else(|| size.strip_prefix("0X")) {
-- 
2.43.0


From 822d760d92719a87d077669a8977fe14ee64d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 13/18] fix: wire_size() of default arms holding opaques

The length prefix was missing.
---
 src/impls/wire_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index e49c2c4..d53615f 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -71,9 +71,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                     if let Some(ref d) = v.default {
                         write!(w, "Self::default(inner) => inner.wire_size()")?;
 
-                        // In-line opaques require padding
+                        // In-line opaques require padding and a length prefix
                         if d.contains_opaque() {
-                            writeln!(w, " + pad_length(inner.wire_size()),")?;
+                            writeln!(w, " + pad_length(inner.wire_size()) + 4,")?;
                         } else {
                             writeln!(w, ",")?;
                         }
-- 
2.43.0


From 4e8c954a36952faa00a912efd8ec806df0154e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 14/18] fix: unsigned is a type in union switches

The two conversions to BasicType did not agree on it.
---
 src/ast/basic_type.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 72ff861..c1a92cc 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -83,17 +83,6 @@ impl<'a> From<&'a str> for BasicType {
 
 impl<'a> From<String> for BasicType {
     fn from(v: String) -> Self {
-        match v.trim() {
-            "unsigned int" | "uint32_t" | "u32" => Self::U32,
-            "int" | "int32_t" | "i32" => Self::I32,
-            "unsigned hyper" | "uint64_t" | "u64" => Self::U64,
-            "hyper" | "int64_t" | "i64" => Self::I64,
-            "float" => Self::F32,
-            "double" => Self::F64,
-            "string" => Self::String,
-            "opaque" => Self::Opaque,
-            "bool" => Self::Bool,
-            s => Self::Ident(s.to_string()),
-        }
+        Self::from(v.as_str())
     }
 }
-- 
2.43.0


From ec8a2812b8fe42795629388d6545c0b6fb24c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 15/18] fix: the CLI prints the generated code without an extra
 newline

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 7d0a3aa5c5f68ac88d6797ff9cb5f7b9481d4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 16/18] fix: whitespace and comments within unsigned types

Anything but a single space between the words became an unknown type.
---
 src/ast/basic_type.rs | 11 ++++++++++-
 src/xdr.pest          |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index c1a92cc..ec5cf0d 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -66,7 +66,16 @@ impl<'a> std::fmt::Display for BasicType {
 
 impl<'a> From<&'a str> for BasicType {
     fn from(v: &'a str) -> Self {
-        match v.trim() {
+        // Whitespace and comments may separate the words of a type.
+        let v = v.trim();
+        let v = match v.strip_prefix("unsigned") {
+            Some(s) if !s.starts_with(|c: char| c.is_whitespace() || c == '/') => v,
+            Some(s) if s.ends_with("int") => "unsigned int",
+            Some(s) if s.ends_with("hyper") => "unsigned hyper",
+            _ => v,
+        };
+
+        match v {
             "unsigned int" | "uint32_t" | "u32" | "unsigned" => Self::U32,
             "int" | "int32_t" | "i32" => Self::I32,
             "unsigned hyper" | "uint64_t" | "u64" => Self::U64,
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..c8bb822 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From 849aa1402df8b5632145931627b436c10950048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 17/18] fix: specifications the generator does not support are
 errors, not panics

---
 src/ast/enumeration.rs       | 30 +++++++++++-------------
 src/ast/indexes/constants.rs |  9 ++++----
 src/ast/mod.rs               | 45 ++++++++++++++++++++----------------
 src/ast/structure.rs         | 16 ++++++-------
 src/ast/union.rs             | 32 ++++++++++++-------------
 src/impls/from.rs            |  2 +-
 6 files changed, 68 insertions(+), 66 deletions(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..374f88c 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -7,18 +7,18 @@ pub struct Enum {
 }
 
 impl<'a> Enum {
-    pub(crate) fn new(vs: Vec<Node<'a>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'a>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut vars = Vec::new();
         for v in vs.into_iter().skip(1) {
-            vars.push(Variant::new(v))
+            vars.push(Variant::new(v)?)
         }
 
-        Self {
+        Ok(Self {
             name,
             variants: vars,
-        }
+        })
     }
 }
 
@@ -43,25 +43,21 @@ impl std::fmt::Display for VariantValue {
     }
 }
 
-impl<T> From<T> for VariantValue
-where
-    T: AsRef<str>,
-{
-    fn from(v: T) -> Self {
-        let v = v.as_ref();
+impl VariantValue {
+    fn parse(v: &str) -> Result<Self> {
         if v.starts_with("0x") {
             let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
+            return Ok(Self::Numeric(i32::from_str_radix(clean, 16)?));
         }
 
-        v.parse::<i32>()
+        Ok(v.parse::<i32>()
             .map(Self::Numeric)
-            .unwrap_or_else(|_| Self::String(v.to_string()))
+            .unwrap_or_else(|_| Self::String(v.to_string())))
     }
 }
 
 impl<'a> Variant {
-    fn new(v: Node<'a>) -> Self {
+    fn new(v: Node<'a>) -> Result<Self> {
         let f = match v {
             Node::EnumVariant(f) => f,
             e => panic!("not a struct field: {:?}", e),
@@ -71,10 +67,10 @@ impl<'a> Variant {
             panic!("unexpected number of tokens in enum")
         }
 
-        Self {
+        Ok(Self {
             name: f[0].ident_str().to_string(),
-            value: f[1].ident_str().into(),
-        }
+            value: VariantValue::parse(f[1].ident_str())?,
+        })
     }
 }
 
diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..8071912 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -1,4 +1,5 @@
 use crate::ast::Node;
+use crate::Result;
 use std::collections::BTreeMap;
 
 #[derive(Debug)]
@@ -21,7 +22,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +36,7 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(format!("duplicate case keys {}", vs[0].ident_str()).into());
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +55,7 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(format!("duplicate case keys {}", v.name.as_str()).into());
                             }
                         }
                     }
@@ -63,7 +64,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..b395893 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -51,11 +51,11 @@ impl Ast {
         // Tokenise the input
         let mut root = XDRParser::parse(Rule::item, xdr)?;
         // Parse into an AST
-        let ast = walk(root.next().ok_or("unable to tokenise input")?);
+        let ast = try_walk(root.next().ok_or("unable to tokenise input")?)?;
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
@@ -84,15 +84,15 @@ impl Ast {
 //
 // These higher-level types will then be extracted and added to the type index
 // later.
-fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
-    fn collect_values(ast: Pair<'_, Rule>) -> Vec<Node<'_>> {
-        ast.into_inner().map(walk).collect()
+fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
+    fn collect_values(ast: Pair<'_, Rule>) -> Result<Vec<Node<'_>>> {
+        ast.into_inner().map(try_walk).collect()
     }
 
-    match ast.as_rule() {
-        Rule::item => Node::Root(collect_values(ast)),
-        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast))),
-        Rule::constant => Node::Constant(collect_values(ast)),
+    Ok(match ast.as_rule() {
+        Rule::item => Node::Root(collect_values(ast)?),
+        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast)?)),
+        Rule::constant => Node::Constant(collect_values(ast)?),
         Rule::ident | Rule::ident_const | Rule::ident_value => {
             if let Ok(t) = BasicType::try_from(ast.as_str()) {
                 Node::Type(t)
@@ -100,23 +100,28 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
                 Node::Ident(ast.as_str())
             }
         }
-        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast))),
-        Rule::enum_variant => Node::EnumVariant(collect_values(ast)),
-        Rule::array => Node::Array(collect_values(ast)),
+        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast)?)?),
+        Rule::enum_variant => Node::EnumVariant(collect_values(ast)?),
+        Rule::array => Node::Array(collect_values(ast)?),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
-        Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
-        Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
-        Rule::union_case => Node::UnionCase(collect_values(ast)),
-        Rule::union_default => Node::UnionDefault(collect_values(ast)),
+        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast)?)?),
+        Rule::struct_data_field => Node::StructDataField(collect_values(ast)?),
+        Rule::union_data_field => Node::UnionDataField(collect_values(ast)?),
+        Rule::union => Node::Union(Union::new(collect_values(ast)?)?),
+        Rule::union_case => Node::UnionCase(collect_values(ast)?),
+        Rule::union_default => Node::UnionDefault(collect_values(ast)?),
         Rule::union_void => Node::UnionVoid,
-        Rule::option => Node::Option(collect_values(ast)),
+        Rule::option => Node::Option(collect_values(ast)?),
         Rule::basic_type => {
             Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
         e => panic!("unknown token type {:?}", e),
-    }
+    })
+}
+
+#[cfg(test)]
+fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
+    try_walk(ast).unwrap()
 }
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..c821d42 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,15 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            fields.push(StructField::new(v)?);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +41,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> Result<Self> {
         let f = match v {
             Node::StructDataField(f) => f,
             e => panic!("not a struct field: {:?}", e),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +72,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".into()),
                 };
 
                 Self {
@@ -81,8 +81,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            _ => return Err("invalid struct field tokens".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..ca2dd0f 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -35,11 +35,11 @@ impl Union {
         for v in vs.into_iter().skip(3) {
             let mut is_default_case = false;
             let stmt = match v {
-                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes),
+                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes)?,
                 Node::UnionDefault(nodes) => {
                     is_default_case = true;
                     case_values.push("default".to_string());
-                    CaseStmt::parse(case_values, nodes)
+                    CaseStmt::parse(case_values, nodes)?
                 }
                 v => panic!("unexpected token type for union {:?}", v),
             };
@@ -59,13 +59,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,14 +102,14 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Result<Self> {
         match field.as_slice() {
-            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
+            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Ok(Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
-            },
-            _ => panic!("invalid number of union field tokens"),
+            }),
+            _ => Err("invalid union field tokens".into()),
         }
     }
 
@@ -130,29 +130,29 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Result<Self> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
             _ => unreachable!(),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
-        match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
+        Ok(match nodes.remove(0) {
+            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)?),
             Node::UnionVoid => Self::Void(case_values),
             _ => unreachable!(),
-        }
+        })
     }
 }
 
diff --git a/src/impls/from.rs b/src/impls/from.rs
index f71cf90..e0f284d 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -338,7 +338,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unexpected fixed length string".into()),
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From 077342024c7a7182c26b01395ef1fa9caf16d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:40 +0000
Subject: [PATCH 18/18] fix: whitespace and comments after numbers are not part
 of them

---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index c8bb822..58ef27a 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
-- 
2.43.0

