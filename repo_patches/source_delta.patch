From f42ab1fdbe1d270b2b38fea3f0119861d344636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 01/39] fix: lex any decimal width suffix on octal literals

---
 spade-ast/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-ast/src/token.rs b/spade-ast/src/token.rs
index 3a6e9c1..5f70ebe 100644
--- a/spade-ast/src/token.rs
+++ b/spade-ast/src/token.rs
@@ -57,7 +57,7 @@ pub enum TokenKind {
         parse_int(&lex.slice()[2..], 16)
     })]
     HexInteger((BigUint, LiteralKind)),
-    #[regex(r"0o[0-7][0-7_]*([uUiI][0-7]*)?", |lex| {
+    #[regex(r"0o[0-7][0-7_]*([uUiI][0-9]*)?", |lex| {
         parse_int(&lex.slice()[2..], 8)
     })]
     OctInteger((BigUint, LiteralKind)),
-- 
2.43.0


From f9fe89fba2cc244d69bd8fff1078e7d562bb7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 02/39] fix: int<0> can only hold the literal 0

---
 spade-typeinference/src/requirements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index 71b6563..b263913 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -394,6 +394,9 @@ impl Requirement {
                                         BigInt::zero(),
                                         two.pow(size_u32) - 1.to_bigint(),
                                     )
+                                } else if size_u32 == 0 {
+                                    // An int<0> has no bits, and can only represent 0
+                                    (BigInt::zero(), BigInt::zero())
                                 } else {
                                     (
                                         -two.clone().pow(size_u32.saturating_sub(1)),
-- 
2.43.0


From 5b63e772b9b725e1bf4c21745c441b4ea735f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 03/39] fix: respect the width and sign suffix of integer
 literals in patterns

---
 spade-ast-lowering/src/lib.rs                 | 21 ++++---
 spade-hir-lowering/src/lib.rs                 | 10 +--
 .../src/linear_check/linear_state.rs          |  4 +-
 spade-hir-lowering/src/pattern.rs             |  2 +-
 spade-hir/src/lib.rs                          | 11 ++--
 spade-hir/src/pretty_debug.rs                 |  2 +-
 spade-query/src/lib.rs                        |  2 +-
 spade-typeinference/src/expression.rs         | 63 +++++++++++--------
 spade-typeinference/src/lib.rs                |  6 +-
 9 files changed, 68 insertions(+), 53 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index ffc4d59..da85af3 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1676,6 +1676,14 @@ fn try_lookup_enum_variant(path: &Loc<Path>, ctx: &mut Context) -> Result<hir::P
     }
 }
 
+fn int_literal_kind(val: &ast::IntLiteral) -> IntLiteralKind {
+    match val {
+        ast::IntLiteral::Unsized(_) => IntLiteralKind::Unsized,
+        ast::IntLiteral::Signed { val: _, size } => IntLiteralKind::Signed(size.clone()),
+        ast::IntLiteral::Unsigned { val: _, size } => IntLiteralKind::Unsigned(size.clone()),
+    }
+}
+
 pub fn visit_pattern(p: &ast::Pattern, ctx: &mut Context) -> Result<hir::Pattern> {
     let bind_variable = |ident: &Loc<Identifier>, ctx: &mut Context| {
         // Check if this is declaring a variable
@@ -1721,7 +1729,9 @@ pub fn visit_pattern(p: &ast::Pattern, ctx: &mut Context) -> Result<hir::Pattern
     };
 
     let kind = match &p {
-        ast::Pattern::Integer(val) => hir::PatternKind::Integer(val.clone().as_signed()),
+        ast::Pattern::Integer(val) => {
+            hir::PatternKind::Integer(val.clone().as_signed(), int_literal_kind(val))
+        },
         ast::Pattern::Bool(val) => hir::PatternKind::Bool(*val),
         ast::Pattern::Bound(name, inner) => {
             let pat = visit_pattern(inner, ctx)?;
@@ -2120,16 +2130,9 @@ pub fn visit_turbofish(
 fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprKind> {
     match e {
         ast::Expression::IntLiteral(val) => {
-            let kind = match &val.inner {
-                ast::IntLiteral::Unsized(_) => IntLiteralKind::Unsized,
-                ast::IntLiteral::Signed { val: _, size } => IntLiteralKind::Signed(size.clone()),
-                ast::IntLiteral::Unsigned { val: _, size } => {
-                    IntLiteralKind::Unsigned(size.clone())
-                }
-            };
             Ok(hir::ExprKind::IntLiteral(
                 val.inner.clone().as_signed(),
-                kind,
+                int_literal_kind(&val.inner),
             ))
         }
         ast::Expression::BoolLiteral(val) => Ok(hir::ExprKind::BoolLiteral(val.inner)),
diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..9d2a4eb 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -405,7 +405,7 @@ impl PatternLocal for Loc<Pattern> {
         }
 
         match &self.kind {
-            hir::PatternKind::Integer(_) => {}
+            hir::PatternKind::Integer(_, _) => {}
             hir::PatternKind::Bool(_) => {}
             hir::PatternKind::Bound { inner, .. } => {
                 if let Some(pat) = inner {
@@ -599,7 +599,7 @@ impl PatternLocal for Loc<Pattern> {
         let output_id = ctx.idtracker.next();
         let result_name = ValueName::Expr(output_id);
         match (&self.kind, if_cond_name) {
-            (hir::PatternKind::Integer(val), c) => {
+            (hir::PatternKind::Integer(val, _), c) => {
                 let self_type =
                     ctx.types
                         .concrete_type_of(self, ctx.symtab.symtab(), &ctx.item_list.types)?;
@@ -856,7 +856,7 @@ impl PatternLocal for Loc<Pattern> {
                 pre_declared: _,
                 wire: _,
             } => name.value_name().at_loc(self),
-            hir::PatternKind::Integer(_)
+            hir::PatternKind::Integer(_, _)
             | hir::PatternKind::Bool(_)
             | hir::PatternKind::Tuple(_)
             | hir::PatternKind::Type(_, _)
@@ -869,7 +869,7 @@ impl PatternLocal for Loc<Pattern> {
     fn is_alias(&self) -> bool {
         match self.kind {
             hir::PatternKind::Bound { .. } => true,
-            hir::PatternKind::Integer(_) => false,
+            hir::PatternKind::Integer(_, _) => false,
             hir::PatternKind::Bool(_) => false,
             hir::PatternKind::Tuple(_) => false,
             hir::PatternKind::Type(_, _) => false,
@@ -879,7 +879,7 @@ impl PatternLocal for Loc<Pattern> {
 
     fn is_trivially_irrefutable(&self) -> bool {
         match &self.kind {
-            spade_hir::PatternKind::Integer(_) => false,
+            spade_hir::PatternKind::Integer(_, _) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 379bac6..09791fc 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -604,7 +604,7 @@ impl LinearState {
     #[tracing::instrument(level = "trace", skip_all)]
     pub fn push_pattern(&mut self, pat: &Pattern, ctx: &LinearCtx) -> Result<(), Diagnostic> {
         match &pat.kind {
-            PatternKind::Integer(_) => {}
+            PatternKind::Integer(_, _) => {}
             PatternKind::Bool(_) => {}
             PatternKind::Bound {
                 name,
@@ -648,7 +648,7 @@ impl LinearState {
 
     pub fn consume_pattern(&mut self, pat: &Loc<Pattern>) -> crate::error::Result<()> {
         match &pat.kind {
-            PatternKind::Integer(_) => {}
+            PatternKind::Integer(_, _) => {}
             PatternKind::Bool(_) => {}
             PatternKind::Bound {
                 name,
diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..fcb5300 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -324,7 +324,7 @@ impl DeconstructedPattern {
 
     pub(crate) fn from_hir(pat: &Pattern, ctx: &Context) -> Self {
         let (ctor, fields) = match &pat.kind {
-            spade_hir::PatternKind::Integer(val) => (
+            spade_hir::PatternKind::Integer(val, _) => (
                 Constructor::IntRange {
                     min: val.clone(),
                     max: (val + 1),
diff --git a/spade-hir/src/lib.rs b/spade-hir/src/lib.rs
index 2b1970d..b756417 100644
--- a/spade-hir/src/lib.rs
+++ b/spade-hir/src/lib.rs
@@ -24,6 +24,7 @@ use spade_common::{
 use spade_diagnostics::Diagnostic;
 use spade_types::{PrimitiveType, meta_types::MetaType};
 
+use crate::expression::IntLiteralKind;
 use crate::impl_tab::ImplTab;
 use crate::pretty_print::PrettyPrint;
 
@@ -47,7 +48,7 @@ pub struct PatternArgument {
 
 #[derive(PartialEq, Debug, Clone, Serialize, Deserialize)]
 pub enum PatternKind {
-    Integer(BigInt),
+    Integer(BigInt, IntLiteralKind),
     Bool(bool),
     Bound {
         name: Loc<NameID>,
@@ -73,7 +74,7 @@ impl PatternKind {
     }
 
     pub fn integer(val: i32) -> Self {
-        Self::Integer(val.to_bigint())
+        Self::Integer(val.to_bigint(), IntLiteralKind::Unsized)
     }
 }
 impl PatternKind {
@@ -91,7 +92,7 @@ impl PatternKind {
 impl std::fmt::Display for PatternKind {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            PatternKind::Integer(val) => write!(f, "{val}"),
+            PatternKind::Integer(val, _) => write!(f, "{val}"),
             PatternKind::Bool(val) => write!(f, "{val}"),
             PatternKind::Bound {
                 name, inner: None, ..
@@ -131,7 +132,7 @@ pub struct Pattern {
 impl Pattern {
     pub fn get_names(&self) -> Vec<Loc<NameID>> {
         match &self.kind {
-            PatternKind::Integer(_) => vec![],
+            PatternKind::Integer(_, _) => vec![],
             PatternKind::Bool(_) => vec![],
             PatternKind::Bound {
                 name,
@@ -153,7 +154,7 @@ impl Pattern {
 
     pub fn get_names_and_wireness(&self) -> Vec<(Loc<NameID>, Option<Loc<()>>)> {
         match &self.kind {
-            PatternKind::Integer(_) => vec![],
+            PatternKind::Integer(_, _) => vec![],
             PatternKind::Bool(_) => vec![],
             PatternKind::Bound {
                 name,
diff --git a/spade-hir/src/pretty_debug.rs b/spade-hir/src/pretty_debug.rs
index 623a741..e46a45a 100644
--- a/spade-hir/src/pretty_debug.rs
+++ b/spade-hir/src/pretty_debug.rs
@@ -471,7 +471,7 @@ impl PrettyDebug for OuterLambdaParam {
 impl PrettyDebug for Pattern {
     fn pretty_debug(&self) -> String {
         match &self.kind {
-            crate::PatternKind::Integer(val) => format!("{val}"),
+            crate::PatternKind::Integer(val, _) => format!("{val}"),
             crate::PatternKind::Bool(val) => format!("{val}"),
             crate::PatternKind::Bound {
                 name,
diff --git a/spade-query/src/lib.rs b/spade-query/src/lib.rs
index e9d4f4c..51fc622 100644
--- a/spade-query/src/lib.rs
+++ b/spade-query/src/lib.rs
@@ -280,7 +280,7 @@ impl<'a> QueryCache {
         self.things
             .insert(pat.loc().map(|_| QueryThing::Pattern(pat.inner.clone())));
         match &pat.inner.kind {
-            PatternKind::Integer(_) => {}
+            PatternKind::Integer(_, _) => {}
             PatternKind::Bool(_) => {}
             PatternKind::Bound {
                 name,
diff --git a/spade-typeinference/src/expression.rs b/spade-typeinference/src/expression.rs
index 645e097..00f3b34 100644
--- a/spade-typeinference/src/expression.rs
+++ b/spade-typeinference/src/expression.rs
@@ -12,7 +12,7 @@ use spade_types::KnownType;
 use spade_types::meta_types::MetaType;
 
 use crate::constraints::{ConstraintExpr, ConstraintSource, bits_to_store, ce_int, ce_var};
-use crate::equation::{TypeVar, TypedExpression};
+use crate::equation::{TypeVar, TypeVarID, TypedExpression};
 use crate::error::{TypeMismatch as Tm, UnificationErrorExt};
 use crate::requirements::{ConstantInt, Requirement};
 use crate::traits::TraitList;
@@ -174,35 +174,46 @@ impl TypeState {
         Ok(())
     }
 
+    /// Creates the type of an integer literal, including the size and signedness given by its
+    /// suffix, if it has one
+    pub fn int_literal_type(
+        &mut self,
+        kind: &IntLiteralKind,
+        loc: Loc<()>,
+        ctx: &Context,
+    ) -> TypeVarID {
+        match kind {
+            IntLiteralKind::Unsized => self.new_generic_number(loc, ctx).0,
+            IntLiteralKind::Signed(size) => {
+                let (t, size_var) = self.new_split_generic_int(loc, ctx.symtab);
+                // NOTE: Safe unwrap, we're unifying a generic int with a size
+                if let Some(sz) = size {
+                    size_var
+                        .unify_with(&self.new_concrete_int(sz.clone(), loc), self)
+                        .commit(self, ctx)
+                        .unwrap();
+                }
+                t
+            }
+            IntLiteralKind::Unsigned(size) => {
+                let (t, size_var) = self.new_split_generic_uint(loc, ctx.symtab);
+                // NOTE: Safe unwrap, we're unifying a generic int with a size
+                if let Some(sz) = size {
+                    size_var
+                        .unify_with(&self.new_concrete_int(sz.clone(), loc), self)
+                        .commit(self, ctx)
+                        .unwrap();
+                }
+                t
+            }
+        }
+    }
+
     #[trace_typechecker]
     #[tracing::instrument(level = "trace", skip_all)]
     pub fn visit_int_literal(&mut self, expression: &Loc<Expression>, ctx: &Context) -> Result<()> {
         assuming_kind!(ExprKind::IntLiteral(value, kind) = &expression => {
-            let (t, _size) = match kind {
-                IntLiteralKind::Unsized => self.new_generic_number(expression.loc(), ctx),
-                IntLiteralKind::Signed(size) => {
-                    let (t, size_var) = self.new_split_generic_int(expression.loc(), ctx.symtab);
-                    // NOTE: Safe unwrap, we're unifying a generic int with a size
-                    if let Some(sz) = size {
-                        size_var
-                            .unify_with(&self.new_concrete_int(sz.clone(), expression.loc()), self)
-                            .commit(self, ctx)
-                            .unwrap();
-                    }
-                    (t, size_var)
-                },
-                IntLiteralKind::Unsigned(size) => {
-                    let (t, size_var) = self.new_split_generic_uint(expression.loc(), ctx.symtab);
-                    // NOTE: Safe unwrap, we're unifying a generic int with a size
-                    if let Some(sz) = size {
-                        size_var
-                            .unify_with(&self.new_concrete_int(sz.clone(), expression.loc()), self)
-                            .commit(self, ctx)
-                            .unwrap();
-                    }
-                    (t, size_var)
-                }
-            };
+            let t = self.int_literal_type(kind, expression.loc(), ctx);
             self.unify(&t, &expression.inner, ctx)
                 .into_diagnostic(expression.loc(), |diag, Tm{e: _, g: _got}| {
                     diag
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..f8a9970 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -931,7 +931,7 @@ impl TypeState {
         ctx: &Context,
     ) -> Result<()> {
         match &pattern.kind {
-            PatternKind::Integer(_) => {}
+            PatternKind::Integer(_, _) => {}
             PatternKind::Bool(_) => {}
             PatternKind::Bound {
                 name,
@@ -2161,8 +2161,8 @@ impl TypeState {
         let new_type = self.new_generic_type(pattern.loc());
         self.add_equation(TypedExpression::Id(pattern.inner.id), new_type);
         match &pattern.inner.kind {
-            hir::PatternKind::Integer(val) => {
-                let (num_t, _) = &self.new_generic_number(pattern.loc(), ctx);
+            hir::PatternKind::Integer(val, kind) => {
+                let num_t = &self.int_literal_type(kind, pattern.loc(), ctx);
                 self.add_requirement(Requirement::FitsIntLiteral {
                     value: ConstantInt::Literal(val.clone()),
                     target_type: num_t.clone().at_loc(pattern),
-- 
2.43.0


From 600e38b9a212c67e3a2893fcdb919d542b27a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 04/39] fix: extend zero-width integers without referring to
 their missing wire

---
 spade-mir/src/codegen/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..ebc8e6a 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -365,7 +365,10 @@ fn forward_expression_code(
         Operator::SignExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::zero() {
+                // Zero size operands have no wire to refer to
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
@@ -393,7 +396,10 @@ fn forward_expression_code(
         Operator::ZeroExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::zero() {
+                // Zero size operands have no wire to refer to
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - operand_size;
                 format!("{{{}'b0, {}}}", extra_bits, op_names[0])
             } else {
-- 
2.43.0


From 9cbeba913dbb6f5817e479b7a63fc74a9a33afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 05/39] fix: do not index single bit wires when truncating and
 sign extending

---
 spade-mir/src/codegen/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index ebc8e6a..6ae9f6d 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -347,11 +347,17 @@ fn forward_expression_code(
             }.to_string()
         }
         Operator::Truncate => {
-            format!(
-                "{}[{}:0]",
-                op_names[0],
-                binding.ty.size() - 1u32.to_biguint()
-            )
+            let one = 1u32.to_biguint();
+            if binding.ty.size() == one && types[&ops[0]].size() == one {
+                // A single bit is a scalar in verilog which can not be indexed
+                op_names[0].clone()
+            } else {
+                format!(
+                    "{}[{}:0]",
+                    op_names[0],
+                    binding.ty.size() - 1u32.to_biguint()
+                )
+            }
         }
         Operator::Concat => {
             format!(
@@ -368,6 +374,9 @@ fn forward_expression_code(
             if operand_size == BigUint::zero() {
                 // Zero size operands have no wire to refer to
                 format!("{self_size}'b0")
+            } else if operand_size == 1u32.to_biguint() {
+                // A single bit is a scalar in verilog which can not be indexed
+                format!("{{{self_size}{{{}}}}}", op_names[0])
             } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
                 match extra_bits.to_u32() {
-- 
2.43.0


From 6a784678cb10e0a4bd0717632dc4532b5e8a1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 06/39] fix: select the right bit for 1 bit members of enums
 with a single variant

---
 spade-mir/src/codegen/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 6ae9f6d..bac50c5 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -720,8 +720,9 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            if full_size == BigUint::one() {
+                // A single bit is a scalar in verilog which can not be indexed
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 51c691ca15054cb98e1c73580570f0f60fc8b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 07/39] fix: only treat the matched integers as covered in
 exhaustiveness checks

---
 spade-hir-lowering/src/pattern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index fcb5300..5724ddb 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -32,7 +32,8 @@ fn split_int_range(
     let mut edges = other_ctors
         .flat_map(|other| {
             let (min, max) = other.as_range();
-            [min, max]
+            // Ranges are inclusive, so the next range starts just after `max`
+            [min, max + 1]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +42,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -191,6 +192,7 @@ pub enum Constructor {
     Bool(bool),
     /// Enum variant constructor
     Variant(usize),
+    /// All integers between `min` and `max`, both inclusive
     IntRange {
         min: BigInt,
         max: BigInt,
@@ -327,7 +329,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val, _) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From 9e5a0ba92e17faa013f153d946fea61a418ed295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 08/39] fix: report refutable enum patterns in let and reg
 bindings

---
 spade-hir-lowering/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 9d2a4eb..6a8c2d1 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -888,9 +888,8 @@ impl PatternLocal for Loc<Pattern> {
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
                 inner.iter().all(Self::is_trivially_irrefutable)
             }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
-            }
+            // Whether this is irrefutable depends on how many variants the type has
+            spade_hir::PatternKind::Type(_, _) => false,
         }
     }
 
-- 
2.43.0


From 936efa2e837bfdd7b987c39798f5c8cbc43ebe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 09/39] fix: do not panic on non-exhaustive matches with
 predicated integer branches

---
 spade-hir-lowering/src/pattern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 5724ddb..54d0d18 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -30,6 +30,8 @@ fn split_int_range(
     other_ctors: impl Iterator<Item = Constructor> + Clone,
 ) -> Vec<Constructor> {
     let mut edges = other_ctors
+        // A wildcard covers the whole range, so it does not add any edges inside it
+        .filter(|other| !matches!(other, Constructor::Wildcard))
         .flat_map(|other| {
             let (min, max) = other.as_range();
             // Ranges are inclusive, so the next range starts just after `max`
-- 
2.43.0


From c571f5afbb25d3737b495e1896ba96d60f131ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 10/39] fix: do not emit assignments to zero width registers

---
 spade-mir/src/codegen/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index bac50c5..6ec5801 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1132,6 +1132,10 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Zero width registers have no declaration, so there is nothing to assign
+        Statement::Register(reg) if reg.ty.size() == BigUint::zero() => {
+            code! {}
+        }
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
-- 
2.43.0


From c9bfc38bde77604b257a8a47469d96296bb6f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 11/39] fix: evaluate zero width constants in initial values

---
 spade-mir/src/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..23c5c09 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -45,6 +45,10 @@ impl Value {
     pub fn as_string(&self) -> String {
         match self {
             Value::Bit(val) => format!("{}", if *val { 1 } else { 0 }),
+            // Zero width numbers do not have any bits, not even a 0
+            Value::Int { size, val: _ } | Value::UInt { size, val: _ } if size.is_zero() => {
+                String::new()
+            }
             Value::Int { size, val } => {
                 if *val >= 0i64.into() {
                     let val_str = format!("{val:b}");
-- 
2.43.0


From 71d3d3046e6cd87c71b0433bd36e58801ce96cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 12/39] fix: infer the type of the inner pattern of declared
 names with subpatterns

---
 spade-typeinference/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index f8a9970..dcf8b5d 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -2202,6 +2202,12 @@ impl TypeState {
                 let name_expr = TypedExpression::Name(name.clone().inner);
                 self.unify(&TypedExpression::Id(pattern.id), &name_expr, ctx)
                     .into_default_diagnostic(name.loc(), self)?;
+                if let Some(pat) = inner {
+                    // If the name was declared earlier, its type is not yet tied to the
+                    // inner pattern
+                    self.unify(&TypedExpression::Id(pat.id), &name_expr, ctx)
+                        .into_default_diagnostic(name.loc(), self)?;
+                }
             }
             hir::PatternKind::Tuple(subpatterns) => {
                 for pattern in subpatterns {
-- 
2.43.0


From 1359b0e4ac7032d79dff2772b6bb8c2c41e69b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 13/39] fix: generate valid code for memories with zero width
 addresses or elements

---
 spade-mir/src/codegen/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 6ec5801..8baa4dc 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -525,7 +525,12 @@ fn forward_expression_code(
             }
         }
         Operator::IndexMemory => {
-            format!("{}[{}]", op_names[0], op_names[1])
+            if types[&ops[1]].size() == BigUint::zero() {
+                // A zero width address has no wire, but can only refer to the first element
+                format!("{}[0]", op_names[0])
+            } else {
+                format!("{}[{}]", op_names[0], op_names[1])
+            }
         }
         Operator::RangeIndexBits {
             start,
@@ -577,7 +582,9 @@ fn forward_expression_code(
                         &full_port_width * (port + 1u32.to_biguint()) - 1u32.to_biguint();
 
                     let addr_start = &full_port_width * port + &inner_w;
-                    let addr = if *addr_w == 1u32.to_biguint() {
+                    let addr = if *addr_w == BigUint::zero() {
+                        "0".to_string()
+                    } else if *addr_w == 1u32.to_biguint() {
                         format!("{}[{}]", op_names[1], addr_start)
                     } else {
                         format!(
@@ -1067,7 +1074,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     }
                     .to_string()
                 }
-                Operator::DeclClockedMemory { .. } => forward_expression.unwrap(),
+                // Memories of zero width elements do not exist in the generated code
+                Operator::DeclClockedMemory { .. } => forward_expression.unwrap_or_default(),
                 Operator::ReadWriteItemsInOut(num_items) => {
                     // NOTE(repr): this code relies on the bit representation of `Option` to use the
                     // MSB as the discriminant, with 0 indicating a `None` value and 1 indicating a
-- 
2.43.0


From b605744f6ef603d883df9c225a1db97bdc877983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 14/39] fix: evaluate stall conditions of pipeline registers in
 the stage they stall

---
 spade-hir-lowering/src/pipelines.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..abbf3e6 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -59,13 +59,13 @@ pub fn handle_pattern(pat: &Pattern, live_vars: &mut Vec<NameID>) {
     }
 }
 
-pub fn handle_statement(
-    statement: &Loc<Statement>,
+pub fn handle_statement<'a>(
+    statement: &'a Loc<Statement>,
     ctx: &mut Context,
     name_map: &mut BTreeMap<NameID, NameID>,
     statements: &mut StatementList,
     clock: &Loc<NameID>,
-    local_conds: &mut Vec<Option<ValueName>>,
+    local_conds: &mut Vec<Option<&'a Loc<Expression>>>,
     stage_enable_names: &mut Vec<Option<ValueName>>,
     current_stage: &mut usize,
 ) -> Result<()> {
@@ -115,10 +115,7 @@ pub fn handle_statement(
         }
         Statement::PipelineRegMarker(extra) => {
             let local_cond = match extra {
-                Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
-                    statements.append(cond.lower(ctx)?);
-                    Some(cond.variable(ctx)?)
-                }
+                Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => Some(cond),
                 Some(spade_hir::PipelineRegMarkerExtra::Count {
                     count,
                     count_typeexpr_id: _,
@@ -127,7 +124,7 @@ pub fn handle_statement(
                 }
                 None => None,
             };
-            local_conds.push(local_cond.map(|c| c.inner));
+            local_conds.push(local_cond);
             let live_vars = ctx.subs.next_stage(ctx.symtab);
 
             // Generate pipeline regs for previous live vars
@@ -291,6 +288,22 @@ pub fn lower_pipeline<'a>(
         )?
     }
 
+    // The conditions are evaluated in the stage which ends at their marker, so variables
+    // in them must refer to their values in that stage. They can also refer to other stages,
+    // so they can not be lowered until the variables in all stages are known.
+    let local_conds = local_conds
+        .into_iter()
+        .enumerate()
+        .map(|(stage, cond)| {
+            let Some(cond) = cond else { return Ok(None) };
+            ctx.subs.current_stage = stage;
+            statements.append(cond.lower(ctx)?);
+            let variable = cond.variable(ctx)?;
+            ctx.subs.current_stage = 0;
+            Ok(Some(variable.inner))
+        })
+        .collect::<Result<Vec<_>>>()?;
+
     // Codegen enable signals for the stages that need them. We need to generate them
     // in reverse order because upstream enables depend on downstream
     let mut current_enable = None;
-- 
2.43.0


From 58ed9289ffb9df0f4fda6f52fa9016657f7b3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 15/39] fix: consider conditions and scrutinees when computing
 the latency of expressions

---
 spade-hir-lowering/src/pipelines.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index abbf3e6..05bd06f 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -714,11 +714,12 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
+            ExprKind::Match(scrutinee, values) => try_compute_availability(
                 &values
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain([scrutinee.as_ref()])
                     .collect::<Vec<_>>(),
                 ctx,
             ),
@@ -777,10 +778,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From ca252ed2a3d037d7a480db4bfdaa36abce8e5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 16/39] fix: reject delayed values in blocks and stall
 conditions of pipelines

---
 spade-hir-lowering/src/pipelines.rs | 43 +++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 05bd06f..28fb355 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -296,6 +296,7 @@ pub fn lower_pipeline<'a>(
         .enumerate()
         .map(|(stage, cond)| {
             let Some(cond) = cond else { return Ok(None) };
+            check_not_delayed(cond, ctx, "Stall conditions can not have a pipeline delay")?;
             ctx.subs.current_stage = stage;
             statements.append(cond.lower(ctx)?);
             let variable = cond.variable(ctx)?;
@@ -483,14 +484,13 @@ pub fn lower_pipeline<'a>(
         valid_signals,
     });
 
-    let result_latency = body.available_in(ctx)?.unwrap_or(0);
-    if result_latency != 0 {
-        let ExprKind::Block(block) = &body.kind else {
-            diag_bail!(body, "Unit result was not a block")
-        };
-        let Some(result) = &block.result else {
-            diag_bail!(body, "Found a block with latency but without a result");
-        };
+    let ExprKind::Block(block) = &body.kind else {
+        diag_bail!(body, "Unit result was not a block")
+    };
+    if let Some(result) = &block.result
+        && let result_latency = result.available_in(ctx)?.unwrap_or(0)
+        && result_latency != 0
+    {
         return Err(
             Diagnostic::error(result, "Use of result before it is ready")
                 .primary_label("Use of result before it is ready")
@@ -674,6 +674,15 @@ pub fn try_compute_availability(
     Ok(result)
 }
 
+/// Returns an error with the specified message if `expr` is not available immediately
+fn check_not_delayed(expr: &Loc<Expression>, ctx: &Context, message: &str) -> Result<()> {
+    match expr.available_in(ctx)? {
+        None | Some(0) => Ok(()),
+        Some(delay) => Err(Diagnostic::error(expr, message.to_string())
+            .primary_label(format!("This has delay {delay}"))),
+    }
+}
+
 #[local_impl]
 impl PipelineAvailability for Expression {
     // Computes the availability of an expression. Returns `None` if the expression is always
@@ -724,12 +733,24 @@ impl PipelineAvailability for Expression {
                 ctx,
             ),
             ExprKind::Block(inner) => {
-                // NOTE: Do we want to allow delayed values inside blocks? That could lead to some
-                // strange issues like
+                // Values inside blocks are not tracked between pipeline stages, so delayed
+                // values can not be bound there
                 // {
                 //      let x = inst(10) subpipe();
-                //      x // Will appear as having availability 1
+                //      x // Would appear as being available immediately
                 // }
+                for statement in &inner.statements {
+                    let value = match &statement.inner {
+                        Statement::Binding(binding) => &binding.value,
+                        Statement::Register(reg) => &reg.value,
+                        _ => continue,
+                    };
+                    check_not_delayed(
+                        value,
+                        ctx,
+                        "Values with a pipeline delay can not be bound inside blocks",
+                    )?;
+                }
                 if let Some(result) = &inner.result {
                     result.available_in(ctx)
                 } else {
-- 
2.43.0


From 0345b6063aa6a0d502f6a9752839a65842690cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 17/39] fix: reject uses of pipeline variables before the stage
 which defines them

---
 spade-hir-lowering/src/substitution.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spade-hir-lowering/src/substitution.rs b/spade-hir-lowering/src/substitution.rs
index 04e5b17..d30881c 100644
--- a/spade-hir-lowering/src/substitution.rs
+++ b/spade-hir-lowering/src/substitution.rs
@@ -161,12 +161,18 @@ impl Substitutions {
     }
 
     /// Return substituted name for `original` in the current pipeline stage
-    /// if there is a substitution for it, otherwise return the name itself
+    /// if there is a substitution for it. If it is a pipeline variable which is not defined
+    /// until a later stage, returns Undefined, otherwise returns the name itself
     pub fn lookup(&self, original: &NameID) -> Substitution {
-        self.inner[self.current_stage]
-            .get(original)
-            .cloned()
-            .unwrap_or(Substitution::Available(original.clone()))
+        if let Some(substitution) = self.inner[self.current_stage].get(original) {
+            return substitution.clone();
+        }
+        // Wires are not registered, so they can be used before their definition.
+        match self.inner.iter().find_map(|stage| stage.get(original)) {
+            Some(Substitution::Wire) => Substitution::Wire,
+            Some(_) => Substitution::Undefined,
+            None => Substitution::Available(original.clone()),
+        }
     }
 
     /// Look up a pipeline reference in an absolute stage. Returns
-- 
2.43.0


From dbd8fc59dee818a6f9abf3013192d9f105ad9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 18/39] fix: reject pipeline labels which are defined multiple
 times

---
 spade-ast-lowering/src/pipelines.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/pipelines.rs b/spade-ast-lowering/src/pipelines.rs
index 928d73e..563d2d0 100644
--- a/spade-ast-lowering/src/pipelines.rs
+++ b/spade-ast-lowering/src/pipelines.rs
@@ -2,6 +2,7 @@ use hir::symbol_table::TypeSymbol;
 use spade_ast as ast;
 use spade_common::location_info::Loc;
 use spade_common::location_info::WithLocation;
+use spade_common::name::Identifier;
 use spade_common::name::Path;
 use spade_diagnostics::Diagnostic;
 use spade_hir as hir;
@@ -15,9 +16,22 @@ pub struct PipelineContext {
     pub scope: usize,
 }
 
-fn visit_pipeline_statement(statement: &ast::Statement, ctx: &mut Context) -> Result<()> {
+fn visit_pipeline_statement(
+    statement: &ast::Statement,
+    labels: &mut Vec<Loc<Identifier>>,
+    ctx: &mut Context,
+) -> Result<()> {
     match &statement {
         ast::Statement::Label(name) => {
+            if let Some(previous) = labels.iter().find(|label| label.inner == name.inner) {
+                return Err(Diagnostic::error(
+                    name,
+                    format!("Label {name} is defined multiple times"),
+                )
+                .primary_label("Label is already defined")
+                .secondary_label(previous, "Previous definition here"));
+            }
+            labels.push(*name);
             ctx.symtab.add_unique_type(
                 Path::ident_with_loc(*name),
                 TypeSymbol::GenericMeta(MetaType::Int).at_loc(name),
@@ -70,8 +84,9 @@ pub fn maybe_perform_pipelining_tasks(
                 .note("All pipelines need to take at least a clock as an argument"));
             }
 
+            let mut labels = vec![];
             for statement in &body.as_ref().unwrap().assume_block().statements {
-                visit_pipeline_statement(statement, ctx)?;
+                visit_pipeline_statement(statement, &mut labels, ctx)?;
             }
 
             Ok(Some(context))
-- 
2.43.0


From 339c9da82d821eeba6138553d802bb8fa60161b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 19/39] fix: do not panic when instantiating a non-pipeline as
 a pipeline inside a pipeline

---
 spade-typeinference/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index dcf8b5d..46f4dd0 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1454,6 +1454,19 @@ impl TypeState {
                         self,
                     )?;
             }
+            (
+                _,
+                CallKind::Pipeline {
+                    inst_loc: _,
+                    depth: cdepth,
+                    depth_typeexpr_id: cdepth_typeexpr_id,
+                },
+            ) => {
+                // Instantiating something which is not a pipeline is reported when lowering the
+                // call, but computing the latency of the call requires its depth before that.
+                let call_depth = self.hir_type_expr_to_var(cdepth, generic_list, ctx)?;
+                self.add_equation(TypedExpression::Id(*cdepth_typeexpr_id), call_depth);
+            }
             _ => {}
         }
 
-- 
2.43.0


From 537173d90ea60d687845871209b46f5764f99b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 20/39] fix: report unsatisfied trait bounds of nested types
 only after all impls are known

---
 spade-typeinference/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 46f4dd0..9582d6d 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -442,7 +442,11 @@ impl TypeState {
             hir::TypeSpec::Tuple(inner) => {
                 let inner = inner
                     .iter()
-                    .map(|t| self.type_var_from_hir(loc, t, generic_list_token, ctx))
+                    .map(|t| {
+                        Ok(self
+                            .type_var_from_hir_with_obligations(loc, t, generic_list_token, ctx)?
+                            .absorb_obligations(&mut obligations))
+                    })
                     .collect::<Result<_>>()?;
 
                 self.add_type_var(TypeVar::tuple(loc, inner))
@@ -459,11 +463,15 @@ impl TypeState {
             }
 
             hir::TypeSpec::Inverted(inner) => {
-                let inner = self.type_var_from_hir(loc, inner, generic_list_token, ctx)?;
+                let inner = self
+                    .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
+                    .absorb_obligations(&mut obligations);
                 self.add_type_var(TypeVar::inverted(loc, inner))
             }
             hir::TypeSpec::CopyView(inner) => {
-                let inner = self.type_var_from_hir(loc, inner, generic_list_token, ctx)?;
+                let inner = self
+                    .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
+                    .absorb_obligations(&mut obligations);
                 self.add_type_var(TypeVar::copy_view(loc, inner))
             }
             hir::TypeSpec::Wildcard(_) => self.new_generic_any(),
-- 
2.43.0


From 49c60491d9eea0a37dec16e2600fd921c9e2a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 21/39] fix: check assertions and match scrutinees for use of
 linear values

---
 spade-hir-lowering/src/linear_check/mod.rs | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 6cec91d..8f356c5 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -136,7 +136,10 @@ pub fn visit_statement(
             None => {}
         },
         Statement::Label(_) => {}
-        Statement::Assert(_) => {}
+        Statement::Assert(expr) => {
+            visit_expression(expr, linear_state, ctx)?;
+            linear_state.consume_expression(expr)?;
+        }
         Statement::Set { target, value } => {
             visit_expression(target, linear_state, ctx)?;
             visit_expression(value, linear_state, ctx)?;
@@ -319,6 +322,24 @@ fn visit_expression(
         }
         spade_hir::ExprKind::Match(cond, variants) => {
             visit_expression(cond, linear_state, ctx)?;
+            // The parts of the value are owned by the names bound by the patterns from here on
+            linear_state.consume_expression(cond)?;
+
+            // All branches exist in the hardware, so the same wires must not be available in
+            // more than one of them
+            if let Some((pat, _, _)) = variants.get(1) {
+                if let Ok(ty) = ctx.type_state.concrete_type_of(cond, ctx.symtab, ctx.types) {
+                    if is_linear(&ty) {
+                        return Err(Diagnostic::error(
+                            pat,
+                            "A match on a value with inverted wires can only have one branch",
+                        )
+                        .primary_label("The inverted wires would be used again here")
+                        .secondary_label(cond.as_ref(), "This value contains inverted wires"));
+                    }
+                }
+            }
+
             for (pat, if_cond, expr) in variants {
                 linear_state.push_pattern(pat, ctx)?;
                 if let Some(if_cond) = if_cond {
-- 
2.43.0


From 94f52b799016e855756409d5a00ce3e140693b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 22/39] fix: only consume the selected elements of a range of a
 linear array

---
 .../src/linear_check/linear_state.rs          | 50 ++++++++++++++++---
 spade-hir-lowering/src/linear_check/mod.rs    | 47 +++++++++++++----
 2 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 09791fc..172b29b 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -536,7 +536,7 @@ impl LinearState {
         idx: F,
     ) -> Result<(), Diagnostic>
     where
-        F: Fn(&LinearTree) -> Rc<RefCell<LinearTree>>,
+        F: Fn(&LinearTree) -> Result<Rc<RefCell<LinearTree>>, Diagnostic>,
     {
         let base_tree_rc = Rc::clone(
             self.trees
@@ -545,12 +545,19 @@ impl LinearState {
         );
 
         let mut base_tree = base_tree_rc;
+        let mut is_view = false;
 
         while let LinearTreeKind::CopyView(inner) = &base_tree.clone().borrow().kind {
             base_tree = inner.clone();
+            is_view = true;
         }
 
-        let subtree = idx(&base_tree.borrow());
+        let mut subtree = idx(&base_tree.borrow())?;
+
+        // A part of a view is also a view, it can be used any number of times
+        if is_view {
+            subtree = Rc::new(RefCell::new(LinearTree::copy_view(subtree)));
+        }
 
         let new_alias = ItemReference::Anonymous(to.inner).at_loc(&to);
         subtree.borrow_mut().add_alias(new_alias.clone());
@@ -569,12 +576,12 @@ impl LinearState {
     ) -> Result<(), Diagnostic> {
         self.alias_subtree(to, base_expr, |base_tree| {
             let subtrees = base_tree.assume_tuple();
-            Rc::clone(&subtrees[idx.inner as usize])
+            Ok(Rc::clone(&subtrees[idx.inner as usize]))
         })
     }
 
     /// Adds `from` as an alias to the tree at `base_expr[idx]`. Panics if base_expr is not
-    /// a tuple with at least idx elements
+    /// an array, and reports an error if idx is not an index of it
     pub fn alias_array_member(
         &mut self,
         to: Loc<ExprID>,
@@ -583,7 +590,38 @@ impl LinearState {
     ) -> Result<(), Diagnostic> {
         self.alias_subtree(to, base_expr, |base_tree| {
             let subtrees = base_tree.assume_array();
-            Rc::clone(&subtrees[idx.inner as usize])
+            idx.inner
+                .to_usize()
+                .and_then(|idx| subtrees.get(idx))
+                .map(Rc::clone)
+                .ok_or_else(|| {
+                    Diagnostic::error(idx, "Array index is out of bounds").primary_label(format!(
+                        "The array only has {} element{}",
+                        subtrees.len(),
+                        if subtrees.len() == 1 { "" } else { "s" }
+                    ))
+                })
+        })
+    }
+
+    /// Adds `from` as an alias for the elements in `range` of the array `base_expr`. Panics if
+    /// base_expr is not an array, and reports an error if the range is not part of it
+    pub fn alias_array_range(
+        &mut self,
+        to: Loc<ExprID>,
+        base_expr: ExprID,
+        range: std::ops::Range<usize>,
+    ) -> Result<(), Diagnostic> {
+        self.alias_subtree(to, base_expr, |base_tree| {
+            let subtrees = base_tree.assume_array();
+            let part = subtrees.get(range.clone()).ok_or_else(|| {
+                Diagnostic::error(to, "Array range is out of bounds").primary_label(format!(
+                    "The array only has {} element{}",
+                    subtrees.len(),
+                    if subtrees.len() == 1 { "" } else { "s" }
+                ))
+            })?;
+            Ok(Rc::new(RefCell::new(LinearTree::array(part.to_vec()))))
         })
     }
 
@@ -597,7 +635,7 @@ impl LinearState {
     ) -> Result<(), Diagnostic> {
         self.alias_subtree(to, base_expr, |base_tree| {
             let subtrees = base_tree.assume_struct();
-            Rc::clone(&subtrees[field])
+            Ok(Rc::clone(&subtrees[field]))
         })
     }
 
diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 8f356c5..930e309 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -8,12 +8,13 @@ use spade_common::{
 use spade_diagnostics::diagnostic::Subdiagnostic;
 use spade_diagnostics::{Diagnostic, diag_bail};
 use spade_hir::{
-    ArgumentList, Binding, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
-    Statement, TypeList,
+    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra,
+    Register, Statement, TypeList,
     expression::{NamedArgument, UnaryOperator},
     symbol_table::SymbolTable,
 };
 use spade_typeinference::TypeState;
+use spade_types::ConcreteType;
 
 use self::linear_state::{LinearState, is_linear};
 use crate::error::Result;
@@ -284,15 +285,41 @@ fn visit_expression(
 
             linear_state.consume_expression(idx_expr)?;
         }
-        spade_hir::ExprKind::RangeIndex {
-            target,
-            start: _,
-            end: _,
-        } => {
+        spade_hir::ExprKind::RangeIndex { target, start, end } => {
             visit_expression(target, linear_state, ctx)?;
-            // We don't track individual elements of arrays, so we'll have to consume the
-            // whole thing here
-            linear_state.consume_expression(target)?;
+
+            let target_ty = ctx
+                .type_state
+                .concrete_type_of(target, ctx.symtab, ctx.types)?;
+            if let (true, ConcreteType::Array { inner: _, size }) =
+                (is_linear(&target_ty), &target_ty)
+            {
+                let bound = |bound: &Option<Loc<ConstGenericWithId>>, default: usize| match bound {
+                    Some(bound) => {
+                        match ctx
+                            .type_state
+                            .concrete_type_of(bound, ctx.symtab, ctx.types)?
+                        {
+                            ConcreteType::Integer(value) => value.to_usize().ok_or_else(|| {
+                                Diagnostic::error(bound, "Array range is out of bounds")
+                                    .primary_label("This bound is outside the array")
+                            }),
+                            other => diag_bail!(bound, "Inferred {other} for type level integer"),
+                        }
+                    }
+                    None => Ok(default),
+                };
+                let size = size.to_usize().unwrap_or(usize::MAX);
+
+                // The other elements of the array still have to be used
+                linear_state.alias_array_range(
+                    expr.id.at_loc(expr),
+                    target.id,
+                    bound(start, 0)?..bound(end, size)?,
+                )?;
+            } else {
+                linear_state.consume_expression(target)?;
+            }
         }
         spade_hir::ExprKind::TupleIndex(base, idx) => {
             visit_expression(base, linear_state, ctx)?;
-- 
2.43.0


From e67f47ef2a3c3ec0489e98f3f551ed87f841993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 23/39] fix: use the size of the inverted wires when indexing a
 range of a linear array

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 8baa4dc..f91f4f3 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -878,7 +878,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From cceaac7a160a57fe9d8fe76c5896f71b6e35440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 24/39] fix: keep the driver, the output and the users of
 deduplicated mut wires

---
 spade-mir/src/codegen/mod.rs                  |   4 +-
 spade-mir/src/passes/deduplicate_mut_wires.rs | 153 ++++++++++++++----
 2 files changed, 124 insertions(+), 33 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index f91f4f3..494032c 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -485,7 +485,7 @@ fn forward_expression_code(
             )
         }
         Operator::IndexArray => {
-            let Type::Array { length, .. } = &types[&ops[0]] else {
+            let Type::Array { length, .. } = types[&ops[0]].strip_copy_view_layers() else {
                 panic!("Array index with non-array input");
             };
             let member_size = self_type.size();
@@ -507,7 +507,7 @@ fn forward_expression_code(
             start,
             end_exclusive: end,
         } => {
-            let (member_size, input_length) = match &types[&ops[0]] {
+            let (member_size, input_length) = match types[&ops[0]].strip_copy_view_layers() {
                 Type::Array { inner, length } => (inner.size(), length),
                 _ => panic!("Range index with non-array input"),
             };
diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..15ee0e2 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -1,8 +1,9 @@
 use num::BigUint;
-use rustc_hash::FxHashMap as HashMap;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use spade_common::location_info::{Loc, WithLocation};
 
-use crate::{Binding, Operator, Statement, ValueName};
+use crate::types::Type;
+use crate::{Binding, ConstantValue, Operator, Statement, ValueName};
 
 use super::MirPass;
 
@@ -18,7 +19,7 @@ impl MirPass for DeduplicateMutWires {
         stmts: &[Loc<Statement>],
         _expr_idtracker: &spade_common::id_tracker::ExprIdTracker,
     ) -> Vec<Loc<Statement>> {
-        replace_duplicate_mut_wires(stmts)
+        remove_unused_mut_wires(replace_duplicate_mut_wires(stmts))
     }
 }
 
@@ -107,10 +108,13 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 }
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
-    let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
-        ValueName,
-    > = HashMap::default();
+    // Constants are emitted once per use. Operands which are the same constant, for example
+    // the index in `a[0]`, must be considered equal even if their names differ
+    let mut seen_constants: HashMap<(&Type, &ConstantValue), &ValueName> = HashMap::default();
+    let mut canonical_names: HashMap<&ValueName, &ValueName> = HashMap::default();
+
+    let mut seen_statements: HashMap<(&Operator, Vec<&ValueName>, &Type), ValueName> =
+        HashMap::default();
     let mut replaced_names = HashMap::default();
 
     for stmt in stmts {
@@ -122,9 +126,14 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let operands = operands
+                    .iter()
+                    .map(|op| *canonical_names.get(&op.inner).unwrap_or(&&op.inner))
+                    .collect::<Vec<_>>();
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&(operator, operands.clone(), ty))
+                    {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
@@ -137,15 +146,30 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
             Statement::Register(_) => {
                 // Empty, registers cannot contain mut wires
             }
-            Statement::Constant(_, _, _)
-            | Statement::Assert(_)
-            | Statement::Set { .. }
-            | Statement::Error => {}
+            Statement::Constant(name, ty, value) => {
+                let canonical = seen_constants.entry((ty, value)).or_insert(name);
+                canonical_names.insert(name, canonical);
+            }
+            Statement::Assert(_) | Statement::Set { .. } | Statement::Error => {}
         }
     }
 
+    let used_names = stmts
+        .iter()
+        .flat_map(|stmt| match &stmt.inner {
+            Statement::Binding(binding) => binding.operands.iter().collect(),
+            Statement::Set { target, value } => vec![target, value],
+            Statement::Register(_)
+            | Statement::Constant(_, _, _)
+            | Statement::Assert(_)
+            | Statement::Error => vec![],
+        })
+        .map(|name| name.inner.clone())
+        .collect::<HashSet<_>>();
+
     let get_replacement = |v: Loc<ValueName>| replaced_names.get(&v).cloned().unwrap_or(v);
 
+    let mut replaced_any = false;
     let iter_result = stmts
         .into_iter()
         .filter_map(|stmt| {
@@ -156,48 +180,115 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                     operands,
                     ty,
                     loc,
-                }) => {
-                    if replaced_names.contains_key(&name.clone().nowhere()) {
+                }) => match replaced_names.get(&name) {
+                    Some(_) if used_names.contains(&name.inner) => {
+                        replaced_any = true;
                         None
-                    } else {
+                    }
+                    // Nothing in the statement list uses this name, but it may be the output
+                    // of the unit, so it must still be defined
+                    Some(replacement) if operator != Operator::Alias => {
+                        replaced_any = true;
                         Some(Statement::Binding(Binding {
                             name,
-                            operator,
-                            operands: operands.into_iter().map(get_replacement).collect(),
+                            operator: Operator::Alias,
+                            operands: vec![replacement.clone()],
                             ty,
                             loc,
                         }))
                     }
-                }
+                    _ => Some(Statement::Binding(Binding {
+                        name,
+                        operator,
+                        operands: operands.into_iter().map(get_replacement).collect(),
+                        ty,
+                        loc,
+                    })),
+                },
                 // Unchanged things since they don't consume nor create mut wires
                 s @ Statement::Register(_)
                 | s @ Statement::Constant(_, _, _)
                 | s @ Statement::Error
                 | s @ Statement::Assert(_) => Some(s),
-                Statement::Set { target, value } => {
-                    // If we replaced a mut wire with another, the other one is going to do
-                    // the assignment. Doing it here is going to cause issues
-                    if replaced_names.contains_key(&target) {
-                        None
-                    } else {
-                        Some(Statement::Set {
-                            target: target,
-                            value: value,
-                        })
-                    }
-                }
+                Statement::Set { target, value } => Some(Statement::Set {
+                    target: get_replacement(target),
+                    value: get_replacement(value),
+                }),
             }
             .map(|s| s.at_loc(&stmt))
         })
         .collect::<Vec<_>>();
 
-    if !replaced_names.is_empty() {
+    if replaced_any {
         replace_duplicate_mut_wires(&iter_result)
     } else {
         iter_result
     }
 }
 
+/// True if `stmt` only looks at the forward part of its operands
+fn only_uses_forward_part(stmt: &Statement) -> bool {
+    match stmt {
+        Statement::Binding(Binding {
+            operator:
+                Operator::IndexTuple(_) | Operator::IndexArray | Operator::RangeIndexArray { .. },
+            ty,
+            ..
+        }) => ty.backward_size() == BigUint::ZERO,
+        Statement::Binding(Binding {
+            operator: Operator::ConstructCopyView,
+            ..
+        }) => true,
+        _ => false,
+    }
+}
+
+/// Reading a forward field of a mixed-direction value creates a value for the whole thing which
+/// contains the field. If only the forward part of that value is used, nothing drives its
+/// mut wires, so it must not be a driver of the mut wires of the value it was taken from.
+fn remove_unused_mut_wires(mut stmts: Vec<Loc<Statement>>) -> Vec<Loc<Statement>> {
+    loop {
+        let mut only_forward: HashMap<ValueName, bool> = HashMap::default();
+        for stmt in &stmts {
+            let forward = only_uses_forward_part(stmt);
+            let operands = match &stmt.inner {
+                Statement::Binding(binding) => binding.operands.iter().collect(),
+                Statement::Set { target, value } => vec![target, value],
+                Statement::Register(_)
+                | Statement::Constant(_, _, _)
+                | Statement::Assert(_)
+                | Statement::Error => vec![],
+            };
+            for operand in operands {
+                *only_forward.entry(operand.inner.clone()).or_insert(true) &= forward;
+            }
+        }
+
+        let mut changed = false;
+        for stmt in &mut stmts {
+            if let Statement::Binding(Binding {
+                name,
+                operator:
+                    Operator::IndexTuple(_) | Operator::IndexArray | Operator::RangeIndexArray { .. },
+                ty,
+                ..
+            }) = &mut stmt.inner
+            {
+                if ty.backward_size() != BigUint::ZERO
+                    && only_forward.get(&name.inner) == Some(&true)
+                {
+                    *ty = Type::CopyView(Box::new(ty.clone()));
+                    changed = true;
+                }
+            }
+        }
+
+        if !changed {
+            return stmts;
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b3a0ffa3b72e62641eac0440bf857ad111d67fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 25/39] fix: keep the generics of the outer unit in lambdas
 inside lambdas

---
 .../src/passes/lower_lambda_defs.rs           | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spade-hir-lowering/src/passes/lower_lambda_defs.rs b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
index 29bf78b..2f0ed44 100644
--- a/spade-hir-lowering/src/passes/lower_lambda_defs.rs
+++ b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
@@ -9,7 +9,7 @@ use spade_common::{
 use spade_diagnostics::{Diagnostic, diag_anyhow};
 use spade_hir::{
     ArgumentList, ExprKind, Expression, Generic, Input, Parameter, ParameterList, Pattern,
-    PatternKind, Statement, TypeParam, TypeSpec, Unit, UnitHead,
+    PatternKind, Statement, TypeExpression, TypeParam, TypeSpec, Unit, UnitHead,
     expression::{CallKind, Safety},
     pretty_print::PrettyPrint,
 };
@@ -321,6 +321,25 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                 },
             );
 
+            // If this lambda is part of the body of another lambda, the types in that body are
+            // inferred again once it is a unit of its own. The generics of the outer unit do not
+            // follow from the captures, so they have to be given explicitly for that.
+            let turbofish = if outer_generic_params.is_empty() {
+                None
+            } else {
+                let num_inferred = type_params.all().count() - outer_generic_params.len();
+                let params = (0..num_inferred)
+                    .map(|_| TypeSpec::Wildcard(expression.loc()))
+                    .chain(outer_generic_params.iter().map(|tp| {
+                        TypeSpec::Generic(Generic::Named(
+                            tp.name_in_body.inner.clone().at_loc(expression),
+                        ))
+                    }))
+                    .map(|spec| TypeExpression::TypeSpec(spec).at_loc(expression))
+                    .collect();
+                Some(ArgumentList::Positional(params).at_loc(expression))
+            };
+
             *expression = ExprKind::Call {
                 kind: CallKind::Function,
                 callee: lambda_type.clone().at_loc(expression),
@@ -342,7 +361,7 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                         .collect(),
                 )
                 .at_loc(expression),
-                turbofish: None,
+                turbofish,
                 safety: Safety::Default,
                 verilog_attr_groups: vec![],
             }
-- 
2.43.0


From 0220528de4549c0ca7b733953e8c1f8d0e759c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 26/39] fix: keep generics of the outer unit apart from those
 made up for lambdas

---
 spade-ast-lowering/src/lambda.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/lambda.rs b/spade-ast-lowering/src/lambda.rs
index c2f52ab..e4c4259 100644
--- a/spade-ast-lowering/src/lambda.rs
+++ b/spade-ast-lowering/src/lambda.rs
@@ -154,6 +154,11 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
         .cloned()
         .collect::<Vec<_>>();
 
+    // The user may have used any of the names we manufacture here for the outer params. The
+    // names they have in the lambda unit do not matter, so pick ones which can not be written.
+    let outer_param_name =
+        |p: &Loc<hir::TypeParam>| Identifier::intern(&format!("#{}", p.ident().unwrap()));
+
     // Generic params for all the captured variables
     let captured_value_generic_param_names = captures
         .iter()
@@ -173,7 +178,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
         .chain(
             outer_generic_params
                 .iter()
-                .map(|p| p.ident().unwrap().inner.clone().at_loc(&p)),
+                .map(|p| outer_param_name(p).at_loc(&p)),
         )
         .collect::<Vec<_>>();
 
@@ -192,7 +197,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
                 .iter()
                 .map(|tp| {
                     Ok(ast::TypeParam::TypeWithMeta {
-                        name: tp.ident().unwrap().inner.clone().at_loc(tp),
+                        name: outer_param_name(tp).at_loc(tp),
                         // NOTE: Recreating the meta-type like this is kind of strange, but works for now. If we add more meta-types in the future, recondsider this decision
                         meta: match tp.meta {
                             MetaType::Int => Identifier::intern("int").at_loc(tp),
-- 
2.43.0


From 7dbd49d3188fad18be4409af051495556eb40720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 27/39] fix: split the reset value along with the register in
 split_compound_regs

---
 spade-mir/src/passes/split_compound_regs.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..a43f2b3 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,28 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // The member is reset to its part of the reset value
+            let (reset_stmt, reset) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (Some(stmt.at_loc(reg)), Some((trigger.clone(), reset_name)))
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +87,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 3606392008d7bba32ea9dfe5dcc3f6923ef24e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 28/39] fix: exclude the end of a bit range in the emitted part
 select

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 494032c..b0c4e96 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -539,7 +539,7 @@ fn forward_expression_code(
             if end_exclusive - start == 1u32.to_biguint() {
                 format!("{}[{start}]", op_names[0])
             } else {
-                format!("{}[{end_exclusive}:{start}]", op_names[0])
+                format!("{}[{}:{start}]", op_names[0], end_exclusive - 1u32)
             }
         }
         Operator::DeclClockedMemory { initial } => {
-- 
2.43.0


From f1b664f7ce71113f91129e7829c2d2da28f79a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 29/39] fix: do not gate registers of enums without a payload

---
 spade-mir/src/passes/auto_clock_gating.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/auto_clock_gating.rs b/spade-mir/src/passes/auto_clock_gating.rs
index 6000e9e..e5fff56 100644
--- a/spade-mir/src/passes/auto_clock_gating.rs
+++ b/spade-mir/src/passes/auto_clock_gating.rs
@@ -69,7 +69,10 @@ impl RegExt for Loc<&Register> {
         }
         match &self.ty {
             crate::types::Type::Enum(variants) => {
-                if variants.len() == 2 && variants[0].len() == 0 {
+                let has_payload = |variant: &Vec<Type>| {
+                    variant.iter().map(|v| v.size()).sum::<BigUint>() != BigUint::ZERO
+                };
+                if variants.len() == 2 && variants[0].len() == 0 && has_payload(&variants[1]) {
                     let mut new_statements = vec![];
 
                     let tag_reg_name = ValueName::Expr(expr_idtracker.next()).at_loc(self);
-- 
2.43.0


From 9ad5016f10a86b564317d501582ffe4292b19008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 30/39] verif: shared state of the unit compiler as scheduling
 points (cfg spade_verif)

---
 spade-common/src/id_tracker.rs                |   4 +
 spade-common/src/lib.rs                       |   4 +
 spade-common/src/verif_sync.rs                | 255 ++++++++++++++++++
 spade-hir-lowering/src/lib.rs                 |   2 +
 spade-hir-lowering/src/monomorphisation.rs    |  30 ++-
 .../src/passes/lower_lambda_defs.rs           |   6 +-
 spade-typeinference/src/lib.rs                |   2 +
 spade-typeinference/src/shared.rs             |   3 +
 8 files changed, 301 insertions(+), 5 deletions(-)
 create mode 100644 spade-common/src/verif_sync.rs

diff --git a/spade-common/src/id_tracker.rs b/spade-common/src/id_tracker.rs
index 583d73e..ea7a97f 100644
--- a/spade-common/src/id_tracker.rs
+++ b/spade-common/src/id_tracker.rs
@@ -1,7 +1,11 @@
 use serde::{Deserialize, Serialize};
+#[cfg(not(spade_verif))]
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering::Relaxed;
 
+#[cfg(spade_verif)]
+use crate::verif_sync::ids::AtomicU64;
+
 macro_rules! def_id_tracker {
     ($name:ident) => {
         #[derive(Debug, Serialize, Deserialize)]
diff --git a/spade-common/src/lib.rs b/spade-common/src/lib.rs
index dd71baf..bc9c524 100644
--- a/spade-common/src/lib.rs
+++ b/spade-common/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod cloning_rwlock;
 pub mod doc_links;
 pub mod id_tracker;
@@ -8,3 +10,5 @@ pub mod name;
 pub mod namespace;
 pub mod num_ext;
 pub mod sizes;
+#[cfg(spade_verif)]
+pub mod verif_sync;
diff --git a/spade-common/src/verif_sync.rs b/spade-common/src/verif_sync.rs
new file mode 100644
index 0000000..daa8d96
--- /dev/null
+++ b/spade-common/src/verif_sync.rs
@@ -0,0 +1,255 @@
+//! Stand-ins for the synchronisation types that are shared between the threads that compile units.
+//! Only present with `--cfg spade_verif`, where every operation on them is a point at which a
+//! scheduler installed by a checker decides which of the threads continues. Without an installed
+//! scheduler, and on threads which the scheduler does not know, they behave like the types in `std`.
+
+use std::cell::Cell;
+use std::ops::Deref;
+use std::sync::atomic::Ordering;
+use std::sync::{Arc, LockResult, TryLockError};
+
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+/// Operations on the queue of units and what the units hand to each other
+pub const MONO: u8 = 1;
+/// Operations on the trackers of names and expression ids
+pub const IDS: u8 = 2;
+/// Operations on the shared type state
+pub const TYPES: u8 = 4;
+
+pub trait Scheduler: Send + Sync {
+    /// A thread is about to be started for what `what` names
+    fn spawned(&self, what: &str) -> usize;
+    /// The thread started, or the scope in which threads are started is entered
+    fn started(&self, id: usize);
+    /// The thread is about to access the shared `object`
+    fn point(&self, id: usize, class: u8, object: u64);
+    /// The thread can not go on until another one does something
+    fn blocked(&self, id: usize);
+    /// The thread which starts the others found nothing to do
+    fn idle(&self, id: usize);
+    fn finished(&self, id: usize);
+}
+
+/// Shared objects are numbered in the order in which they are made
+static OBJECTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
+
+fn object() -> u64 {
+    OBJECTS.fetch_add(1, Ordering::SeqCst)
+}
+
+static SCHEDULER: std::sync::RwLock<Option<Arc<dyn Scheduler>>> = std::sync::RwLock::new(None);
+
+thread_local! {
+    static SELF: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+pub fn install(scheduler: Option<Arc<dyn Scheduler>>) {
+    OBJECTS.store(0, Ordering::SeqCst);
+    *SCHEDULER.write().unwrap_or_else(|e| e.into_inner()) = scheduler;
+}
+
+fn scheduler() -> Option<Arc<dyn Scheduler>> {
+    SCHEDULER.read().unwrap_or_else(|e| e.into_inner()).clone()
+}
+
+fn with<T>(f: impl FnOnce(&dyn Scheduler, usize) -> T) -> Option<T> {
+    let id = SELF.with(|s| s.get())?;
+    scheduler().map(|s| f(s.as_ref(), id))
+}
+
+fn point(class: u8, object: u64) {
+    with(|s, id| s.point(id, class, object));
+}
+
+/// Returns false if there is no scheduler
+pub fn idle() -> bool {
+    with(|s, id| s.idle(id)).is_some()
+}
+
+#[derive(Clone, Copy)]
+pub struct Participant(Option<usize>);
+
+impl Participant {
+    /// To be called by the thread which starts another one
+    pub fn spawned(what: &str) -> Participant {
+        Participant(scheduler().map(|s| s.spawned(what)))
+    }
+
+    /// To be called by the thread itself
+    pub fn enter(self) -> Entered {
+        let prev = SELF.with(|s| s.replace(self.0));
+        if let (Some(s), Some(id)) = (scheduler(), self.0) {
+            s.started(id);
+        }
+        Entered { me: self.0, prev }
+    }
+}
+
+pub struct Entered {
+    me: Option<usize>,
+    prev: Option<usize>,
+}
+
+impl Drop for Entered {
+    fn drop(&mut self) {
+        if let (Some(s), Some(id)) = (scheduler(), self.me) {
+            s.finished(id);
+        }
+        SELF.with(|s| s.set(self.prev));
+    }
+}
+
+fn acquire<G>(
+    class: u8,
+    object: u64,
+    try_it: impl Fn() -> Result<G, TryLockError<G>>,
+    wait: impl FnOnce() -> LockResult<G>,
+) -> LockResult<G> {
+    if with(|_, _| ()).is_none() {
+        return wait();
+    }
+    point(class, object);
+    loop {
+        match try_it() {
+            Ok(guard) => return Ok(guard),
+            Err(TryLockError::Poisoned(e)) => return Err(e),
+            Err(TryLockError::WouldBlock) => {
+                with(|s, id| s.blocked(id));
+            }
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct Mutex<T, const C: u8>(std::sync::Mutex<T>, u64);
+
+impl<T, const C: u8> Mutex<T, C> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::Mutex::new(t), object())
+    }
+    pub fn lock(&self) -> LockResult<std::sync::MutexGuard<'_, T>> {
+        acquire(C, self.1, || self.0.try_lock(), || self.0.lock())
+    }
+}
+
+impl<T, const C: u8> Deref for Mutex<T, C> {
+    type Target = std::sync::Mutex<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[derive(Debug)]
+pub struct RwLock<T, const C: u8>(std::sync::RwLock<T>, u64);
+
+impl<T, const C: u8> RwLock<T, C> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::RwLock::new(t), object())
+    }
+    pub fn read(&self) -> LockResult<std::sync::RwLockReadGuard<'_, T>> {
+        acquire(C, self.1, || self.0.try_read(), || self.0.read())
+    }
+    pub fn write(&self) -> LockResult<std::sync::RwLockWriteGuard<'_, T>> {
+        acquire(C, self.1, || self.0.try_write(), || self.0.write())
+    }
+}
+
+impl<T, const C: u8> Deref for RwLock<T, C> {
+    type Target = std::sync::RwLock<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T: Serialize, const C: u8> Serialize for RwLock<T, C> {
+    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
+        self.0.serialize(s)
+    }
+}
+
+impl<'de, T: Deserialize<'de>, const C: u8> Deserialize<'de> for RwLock<T, C> {
+    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
+        std::sync::RwLock::deserialize(d).map(|t| Self(t, object()))
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $inner:ty, $prim:ty, [$($op:ident),*]) => {
+        #[derive(Debug)]
+        pub struct $name<const C: u8>($inner, u64);
+
+        impl<const C: u8> $name<C> {
+            pub fn new(v: $prim) -> Self {
+                Self(<$inner>::new(v), object())
+            }
+            pub fn load(&self, order: Ordering) -> $prim {
+                point(C, self.1);
+                self.0.load(order)
+            }
+            pub fn store(&self, v: $prim, order: Ordering) {
+                point(C, self.1);
+                self.0.store(v, order)
+            }
+            pub fn swap(&self, v: $prim, order: Ordering) -> $prim {
+                point(C, self.1);
+                self.0.swap(v, order)
+            }
+            pub fn compare_exchange(&self, old: $prim, new: $prim, ok: Ordering, err: Ordering) -> Result<$prim, $prim> {
+                point(C, self.1);
+                self.0.compare_exchange(old, new, ok, err)
+            }
+            $(pub fn $op(&self, v: $prim, order: Ordering) -> $prim {
+                point(C, self.1);
+                self.0.$op(v, order)
+            })*
+        }
+
+        impl<const C: u8> Deref for $name<C> {
+            type Target = $inner;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl<const C: u8> Serialize for $name<C> {
+            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
+                self.0.serialize(s)
+            }
+        }
+
+        impl<'de, const C: u8> Deserialize<'de> for $name<C> {
+            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
+                <$inner>::deserialize(d).map(|v| Self(v, object()))
+            }
+        }
+    };
+}
+
+atomic!(
+    AtomicU64,
+    std::sync::atomic::AtomicU64,
+    u64,
+    [fetch_add, fetch_sub, fetch_max, fetch_min]
+);
+atomic!(
+    AtomicBool,
+    std::sync::atomic::AtomicBool,
+    bool,
+    [fetch_or, fetch_and]
+);
+
+macro_rules! class {
+    ($name:ident, $class:ident) => {
+        pub mod $name {
+            pub type Mutex<T> = super::Mutex<T, { super::$class }>;
+            pub type RwLock<T> = super::RwLock<T, { super::$class }>;
+            pub type AtomicU64 = super::AtomicU64<{ super::$class }>;
+            pub type AtomicBool = super::AtomicBool<{ super::$class }>;
+        }
+    };
+}
+
+class!(mono, MONO);
+class!(ids, IDS);
+class!(types, TYPES);
diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 6a8c2d1..a757d35 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod attributes;
 mod const_generic;
 pub mod error;
diff --git a/spade-hir-lowering/src/monomorphisation.rs b/spade-hir-lowering/src/monomorphisation.rs
index 3f4d4f1..854fe47 100644
--- a/spade-hir-lowering/src/monomorphisation.rs
+++ b/spade-hir-lowering/src/monomorphisation.rs
@@ -1,12 +1,20 @@
 use std::collections::{BTreeMap, VecDeque};
 use std::panic::{self, set_hook};
+use std::sync::Arc;
+#[cfg(not(spade_verif))]
 use std::sync::atomic::{AtomicBool, AtomicU64};
-use std::sync::{Arc, Mutex, RwLock};
+#[cfg(not(spade_verif))]
+use std::sync::{Mutex, RwLock};
 
 use itertools::Itertools;
 use mir::passes::MirPass;
 use rustc_hash::FxHashMap as HashMap;
 use spade_common::location_info::Loc;
+#[cfg(spade_verif)]
+use spade_common::verif_sync::{
+    self,
+    mono::{AtomicBool, AtomicU64, Mutex, RwLock},
+};
 use spade_common::{id_tracker::ExprIdTracker, location_info::WithLocation, name::NameID};
 use spade_diagnostics::codespan::Span;
 use spade_diagnostics::diagnostic::{Message, Subdiagnostic};
@@ -162,7 +170,15 @@ impl MonoState {
             if let Some(result) = next {
                 return Some(result);
             } else {
-                match rayon::yield_now() {
+                #[cfg(not(spade_verif))]
+                let yielded = rayon::yield_now();
+                #[cfg(spade_verif)]
+                let yielded = if verif_sync::idle() {
+                    Some(rayon::Yield::Idle)
+                } else {
+                    rayon::yield_now()
+                };
+                match yielded {
                     Some(rayon::Yield::Idle) => {
                         if self
                             .remaining_units
@@ -221,7 +237,7 @@ pub fn compile_items(
     items: &BTreeMap<&NameID, (&ExecutableItem, TypeState)>,
     symtab: &FrozenSymtab,
     idtracker: &Arc<ExprIdTracker>,
-    name_source_map: &Arc<RwLock<NameSourceMap>>,
+    name_source_map: &Arc<std::sync::RwLock<NameSourceMap>>,
     item_list: &ItemList,
     opt_passes: &[&(dyn MirPass + Send + Sync)],
     impl_type_state: &TypeState,
@@ -266,6 +282,8 @@ pub fn compile_items(
         }
 
         rayon::scope_fifo(move |s| {
+            #[cfg(spade_verif)]
+            let _entered = verif_sync::Participant::spawned("").enter();
             while let Some(item) = state.next_target(&panic_marker) {
                 let state = Arc::clone(&state);
                 let name_source_map = Arc::clone(&name_source_map);
@@ -273,7 +291,11 @@ pub fn compile_items(
                 let idtracker = Arc::clone(&idtracker);
                 let body_replacements = Arc::clone(&body_replacements);
 
+                #[cfg(spade_verif)]
+                let participant = verif_sync::Participant::spawned(&item.source_name.to_string());
                 s.spawn_fifo(move |_s| {
+                    #[cfg(spade_verif)]
+                    let _entered = participant.enter();
                     let key = item.key();
 
                     let local = monomorphize_item(
@@ -324,7 +346,7 @@ fn monomorphize_item(
     symtab: &FrozenSymtab,
     item_list: &ItemList,
     impl_type_state: &TypeState,
-    name_source_map: &Arc<RwLock<NameSourceMap>>,
+    name_source_map: &Arc<std::sync::RwLock<NameSourceMap>>,
     opt_passes: &[&(dyn MirPass + Send + Sync)],
     trait_impls: &TraitImplList,
 ) -> std::result::Result<Option<MirOutput>, Vec<Diagnostic>> {
diff --git a/spade-hir-lowering/src/passes/lower_lambda_defs.rs b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
index 2f0ed44..efc6240 100644
--- a/spade-hir-lowering/src/passes/lower_lambda_defs.rs
+++ b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
@@ -1,6 +1,10 @@
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(spade_verif))]
+use std::sync::RwLock;
 
 use rustc_hash::FxHashMap as HashMap;
+#[cfg(spade_verif)]
+use spade_common::verif_sync::mono::RwLock;
 use spade_common::{
     id_tracker::ExprIdTracker,
     location_info::{Loc, WithLocation},
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 9582d6d..a55fce4 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 // This algorithm is based off the excellent lecture here
 // https://www.youtube.com/watch?v=xJXcZp2vgLs
 //
diff --git a/spade-typeinference/src/shared.rs b/spade-typeinference/src/shared.rs
index 3a70741..2f5551f 100644
--- a/spade-typeinference/src/shared.rs
+++ b/spade-typeinference/src/shared.rs
@@ -1,3 +1,6 @@
+#[cfg(spade_verif)]
+use spade_common::verif_sync::types::{AtomicU64, RwLock};
+#[cfg(not(spade_verif))]
 use std::sync::{RwLock, atomic::AtomicU64};
 
 use serde::{Deserialize, Serialize};
-- 
2.43.0


From 17fb60095cec57cff87ab98fe0bc59771c5524f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 31/39] fix: find the end of a block comment in the text, not
 among its tokens

The inside of a block comment was lexed, so a quote or `//` in it could hide its end,
commenting out what follows.
---
 spade-parser/src/lib.rs | 105 ++++++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 36 deletions(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5251a0f..4be9cbc 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -116,6 +116,21 @@ impl<'source> TokenSource<'source> {
             TokenSource::Slice([]) => 0..0,
         }
     }
+
+    /// Skips past the `*/` which closes the block comment whose `/*` was just lexed. Returns false
+    /// if there is none.
+    fn skip_block_comment(&mut self) -> bool {
+        match self {
+            TokenSource::Lexer(l) => {
+                let rest = l.remainder();
+                let len = block_comment_length(rest);
+                l.bump(len.unwrap_or(rest.len()));
+                len.is_some()
+            }
+            // Comments are not part of token streams
+            TokenSource::Slice(_) => false,
+        }
+    }
 }
 
 // Clone for when you want to call a parse function but maybe discard the new parser state
@@ -3144,10 +3159,6 @@ impl<'a> Parser<'a> {
     }
 
     fn next_token(&mut self) -> Result<Token> {
-        self.next_token_helper(0)
-    }
-
-    fn next_token_helper(&mut self, block_comment_depth: usize) -> Result<Token> {
         let lex_dot_next = {
             let mut break_value: Option<std::result::Result<_, _>> = None;
             while let Some(next) = self.lex.next() {
@@ -3171,46 +3182,68 @@ impl<'a> Parser<'a> {
                 Loc::new((), lspan(self.lex.span()), self.file_id()),
                 "Lexer error, unexpected symbol",
             )),
-            None => Ok(match &self.last_token {
-                Some(last) => Token {
-                    kind: TokenKind::Eof,
-                    span: last.span.end..last.span.end,
-                    file_id: last.file_id,
-                },
-                None => Token {
-                    kind: TokenKind::Eof,
-                    span: logos::Span { start: 0, end: 0 },
-                    file_id: self.file_id(),
-                },
-            }),
+            None => Ok(self.eof_token()),
         }?;
 
         match out.kind {
-            TokenKind::BlockCommentStart => loop {
-                let next = match self.next_token_helper(block_comment_depth + 1) {
-                    Ok(next) => next,
-                    // We don't actually care about lexer errors inside block comments,
-                    // so let's just continue.
-                    Err(_) => continue,
-                };
-                match next.kind {
-                    TokenKind::BlockCommentEnd => {
-                        if block_comment_depth == 0 {
-                            self.comments.push(Comment::Block(out, next));
-                        }
-                        break self.next_token_helper(block_comment_depth);
-                    }
-                    TokenKind::Eof => {
-                        break Err(Diagnostic::error(next, "Unterminated block comment")
+            // What is inside a block comment is not made of tokens, so we can not ask the lexer
+            // where it ends
+            TokenKind::BlockCommentStart => {
+                if !self.lex.skip_block_comment() {
+                    return Err(
+                        Diagnostic::error(self.eof_token(), "Unterminated block comment")
                             .primary_label("Expected */")
-                            .secondary_label(out, "to close this block comment"));
-                    }
-                    _ => {}
+                            .secondary_label(out, "to close this block comment"),
+                    );
                 }
-            },
+                let end = self.lex.span().end;
+                let end = Token::new(TokenKind::BlockCommentEnd, end - 2..end, self.file_id());
+                self.comments.push(Comment::Block(out, end));
+                self.next_token()
+            }
             _ => Ok(out),
         }
     }
+
+    fn eof_token(&self) -> Token {
+        match &self.last_token {
+            Some(last) => Token {
+                kind: TokenKind::Eof,
+                span: last.span.end..last.span.end,
+                file_id: last.file_id,
+            },
+            None => Token {
+                kind: TokenKind::Eof,
+                span: logos::Span { start: 0, end: 0 },
+                file_id: self.file_id(),
+            },
+        }
+    }
+}
+
+/// The number of bytes up to and including the `*/` which closes the block comment that `text` is
+/// the inside of, or `None` if it is not closed. Block comments nest.
+fn block_comment_length(text: &str) -> Option<usize> {
+    let bytes = text.as_bytes();
+    let mut depth = 1;
+    let mut pos = 0;
+    while let Some(pair) = bytes.get(pos..pos + 2) {
+        match pair {
+            b"/*" => {
+                depth += 1;
+                pos += 2;
+            }
+            b"*/" => {
+                depth -= 1;
+                pos += 2;
+                if depth == 0 {
+                    return Some(pos);
+                }
+            }
+            _ => pos += 1,
+        }
+    }
+    None
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From 6ad7747ecfad68d9e3f04bdff034e05c0adea654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 32/39] fix: report type level expressions that have no value

---
 spade-typeinference/src/constraints.rs | 72 +++++++++++++++++++++++++-
 spade-typeinference/src/lib.rs         | 16 ++++++
 2 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..6a47161 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -1,4 +1,4 @@
-use num::{BigInt, Signed};
+use num::{BigInt, Signed, Zero};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     location_info::{Loc, WithLocation},
@@ -207,6 +207,13 @@ impl ConstraintExpr {
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
+            // Division by zero has no value, such constraints are left as they are, and reported
+            // by [TypeState::check_constraints_have_values]
+            ConstraintExpr::Div(_, rhs) | ConstraintExpr::Mod(_, rhs)
+                if rhs.evaluates_to_zero(type_state) =>
+            {
+                self.clone()
+            }
             ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
             ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
@@ -299,6 +306,69 @@ impl ConstraintExpr {
         }
     }
 
+    fn evaluates_to_zero(&self, type_state: &TypeState) -> bool {
+        matches!(self.evaluate(type_state), ConstraintExpr::Integer(val) if val.is_zero())
+    }
+
+    /// If everything in the expression is known, but the expression still has no value, returns
+    /// the reason for that
+    pub fn reason_for_no_value(&self, type_state: &TypeState) -> Option<&'static str> {
+        match self {
+            ConstraintExpr::Integer(_) | ConstraintExpr::Bool(_) | ConstraintExpr::String(_) => {
+                None
+            }
+            ConstraintExpr::Var(_) => None,
+            ConstraintExpr::Sub(inner)
+            | ConstraintExpr::LogicalNot(inner)
+            | ConstraintExpr::IntBitsToRepresent(inner)
+            | ConstraintExpr::UintBitsToRepresent(inner) => {
+                inner.reason_for_no_value(type_state).or_else(|| {
+                    (inner.evaluate(type_state).is_value() && !self.evaluate(type_state).is_value())
+                        .then_some("An operand has the wrong type")
+                })
+            }
+            ConstraintExpr::Sum(lhs, rhs)
+            | ConstraintExpr::Difference(lhs, rhs)
+            | ConstraintExpr::Product(lhs, rhs)
+            | ConstraintExpr::Div(lhs, rhs)
+            | ConstraintExpr::Mod(lhs, rhs)
+            | ConstraintExpr::Eq(lhs, rhs)
+            | ConstraintExpr::NotEq(lhs, rhs)
+            | ConstraintExpr::Lt(lhs, rhs)
+            | ConstraintExpr::Gt(lhs, rhs)
+            | ConstraintExpr::Le(lhs, rhs)
+            | ConstraintExpr::Ge(lhs, rhs)
+            | ConstraintExpr::LogicalAnd(lhs, rhs)
+            | ConstraintExpr::LogicalOr(lhs, rhs)
+            | ConstraintExpr::LogicalXor(lhs, rhs) => lhs
+                .reason_for_no_value(type_state)
+                .or_else(|| rhs.reason_for_no_value(type_state))
+                .or_else(
+                    || match (lhs.evaluate(type_state), rhs.evaluate(type_state)) {
+                        (l, r) if !l.is_value() || !r.is_value() => None,
+                        _ if self.evaluate(type_state).is_value() => None,
+                        (ConstraintExpr::Integer(_), ConstraintExpr::Integer(r))
+                            if r.is_zero()
+                                && matches!(
+                                    self,
+                                    ConstraintExpr::Div(_, _) | ConstraintExpr::Mod(_, _)
+                                ) =>
+                        {
+                            Some("Division by zero")
+                        }
+                        _ => Some("An operand has the wrong type"),
+                    },
+                ),
+        }
+    }
+
+    fn is_value(&self) -> bool {
+        matches!(
+            self,
+            ConstraintExpr::Integer(_) | ConstraintExpr::Bool(_) | ConstraintExpr::String(_)
+        )
+    }
+
     pub fn with_context(
         self,
         replaces: &TypeVarID,
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index a55fce4..f529801 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -836,6 +836,7 @@ impl TypeState {
         self.handle_unit_data_constraints(entity, ctx)?;
 
         self.check_requirements(true, ctx)?;
+        self.check_constraints_have_values()?;
 
         // NOTE: We may accidentally leak a stage depth if this function returns early. However,
         // since we only use stage depths in pipelines where we re-set it when we enter,
@@ -3748,6 +3749,21 @@ impl TypeState {
         Ok(())
     }
 
+    /// Reports type level expressions which can never be evaluated even though everything
+    /// in them is known, for example because they divide by zero
+    fn check_constraints_have_values(&self) -> Result<()> {
+        for (_, rhs) in &self.owned.constraints.inner {
+            if let Some(reason) = rhs.inner.constraint.reason_for_no_value(self) {
+                return Err(Diagnostic::error(
+                    rhs,
+                    "This type level expression cannot be evaluated",
+                )
+                .primary_label(reason));
+            }
+        }
+        Ok(())
+    }
+
     pub fn get_replacement(&self, var: &TypeVarID) -> TypeVarID {
         self.owned.replacements.get(*var)
     }
-- 
2.43.0


From 06407bffc9b2fcec05c84b9ad54642226e56cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 33/39] fix: resolve what the language refers to itself from
 the prelude

---
 spade-ast-lowering/src/lambda.rs | 12 +++++++-----
 spade-ast-lowering/src/lib.rs    | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/spade-ast-lowering/src/lambda.rs b/spade-ast-lowering/src/lambda.rs
index e4c4259..43a34a8 100644
--- a/spade-ast-lowering/src/lambda.rs
+++ b/spade-ast-lowering/src/lambda.rs
@@ -25,6 +25,7 @@ use crate::Result;
 use crate::global_symbols::re_visit_type_declaration;
 use crate::global_symbols::visit_type_declaration;
 use crate::impls::visit_impl;
+use crate::prelude_path;
 use crate::visit_block;
 use crate::visit_pattern;
 use crate::visit_unit_kind;
@@ -86,7 +87,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
         diag_anyhow!(loc, "Did not have a current_unit when visiting this lambda")
     })?;
 
-    let (clock_arg, actual_args) = handle_unit_kind(unit_kind, args)?;
+    let (clock_arg, actual_args) = handle_unit_kind(unit_kind, args, ctx)?;
 
     let shared_captures = Arc::new(Mutex::new(vec![]));
     {
@@ -276,9 +277,9 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
             r#trait: Some(
                 ast::TraitSpec {
                     path: match &unit_kind.inner {
-                        UnitKind::Function => Path::from_strs(&["Fn"]).at_loc(unit_kind),
-                        UnitKind::Entity => Path::from_strs(&["Entity"]).at_loc(unit_kind),
-                        UnitKind::Pipeline(_) => Path::from_strs(&["Pipeline"]).at_loc(unit_kind),
+                        UnitKind::Function => prelude_path("Fn", ctx).at_loc(unit_kind),
+                        UnitKind::Entity => prelude_path("Entity", ctx).at_loc(unit_kind),
+                        UnitKind::Pipeline(_) => prelude_path("Pipeline", ctx).at_loc(unit_kind),
                     },
                     type_params: Some(
                         match &unit_kind.inner {
@@ -487,6 +488,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
 fn handle_unit_kind(
     unit_kind: &Loc<UnitKind>,
     args: &Loc<Vec<Loc<ast::Pattern>>>,
+    ctx: &Context,
 ) -> Result<(
     Option<(
         ast::AttributeList,
@@ -522,7 +524,7 @@ fn handle_unit_kind(
                                 None
                             },
                             p.0.last().unwrap().unwrap_named().clone(),
-                            ast::TypeSpec::Named(Path::from_strs(&["clock"]).at_loc(clock), None)
+                            ast::TypeSpec::Named(prelude_path("clock", ctx).at_loc(clock), None)
                                 .at_loc(clock),
                         )),
                         rest.to_vec(),
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index da85af3..b389bf3 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1459,6 +1459,19 @@ pub fn visit_trait_specs(
         .collect()
 }
 
+/// The path to an item in the prelude that the language itself refers to, for example the trait
+/// behind an operator. Unlike just the name, nothing in the current scope can shadow it.
+pub fn prelude_path(name: &str, ctx: &Context) -> Path {
+    let depth = ctx.symtab.current_namespace().0.len();
+    let mut segments = if depth == 0 {
+        vec!["self"]
+    } else {
+        vec!["super"; depth]
+    };
+    segments.push(name);
+    Path::from_strs(&segments)
+}
+
 #[tracing::instrument(skip_all, fields(name=?trait_spec.path))]
 pub fn visit_trait_spec(
     trait_spec: &Loc<ast::TraitSpec>,
@@ -2169,7 +2182,7 @@ fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir
                     let rhs_loc = rhs.loc();
 
                     let trait_spec = ast::TraitSpec {
-                        path: Path::from_strs(&[trait_name]).at_loc(tok),
+                        path: prelude_path(trait_name, ctx).at_loc(tok),
                         type_params: if trait_params.is_empty() {
                             None
                         } else {
@@ -2245,7 +2258,7 @@ fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir
                  trait_name: &'static str,
                  trait_params: Vec<Loc<ast::TypeExpression>>| {
                     let trait_spec = ast::TraitSpec {
-                        path: Path::from_strs(&[trait_name]).at_loc(operator),
+                        path: prelude_path(trait_name, ctx).at_loc(operator),
                         type_params: if trait_params.is_empty() {
                             None
                         } else {
-- 
2.43.0


From c5cf66fadc1318d2eb868590aa16399d0268ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 34/39] fix: only consider the methods of its trait for an
 operator

---
 .../src/passes/lower_methods.rs               |  9 ++++---
 spade-typeinference/src/expression.rs         |  2 ++
 spade-typeinference/src/method_resolution.rs  | 24 ++++++++++++++++++-
 spade-typeinference/src/requirements.rs       | 10 +++++---
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/spade-hir-lowering/src/passes/lower_methods.rs b/spade-hir-lowering/src/passes/lower_methods.rs
index 00e8fff..d7568da 100644
--- a/spade-hir-lowering/src/passes/lower_methods.rs
+++ b/spade-hir-lowering/src/passes/lower_methods.rs
@@ -11,7 +11,9 @@ use spade_hir::{
     symbol_table::FrozenSymtab,
 };
 use spade_typeinference::{
-    HasType, TypeState, equation::TypedExpression, method_resolution::select_method,
+    HasType, TypeState,
+    equation::TypedExpression,
+    method_resolution::{select_method, select_method_of_trait},
     traits::TraitImplList,
 };
 
@@ -28,7 +30,7 @@ impl<'a> Pass for LowerMethods<'a> {
         let replacement_kind = match &mut expression.kind {
             spade_hir::ExprKind::MethodCall {
                 target: self_,
-                op_trait: _,
+                op_trait,
                 name,
                 args,
                 call_kind,
@@ -48,11 +50,12 @@ impl<'a> Pass for LowerMethods<'a> {
                     &self.items.types,
                 )?;
 
-                let Some((method, self_view_layers_delta)) = select_method(
+                let Some((method, self_view_layers_delta)) = select_method_of_trait(
                     self_.loc(),
                     &self_type,
                     name,
                     true,
+                    op_trait.as_ref().map(|t| &t.name),
                     &self.impls,
                     &self.type_state,
                 )?
diff --git a/spade-typeinference/src/expression.rs b/spade-typeinference/src/expression.rs
index 00f3b34..d31414f 100644
--- a/spade-typeinference/src/expression.rs
+++ b/spade-typeinference/src/expression.rs
@@ -460,6 +460,7 @@ impl TypeState {
                 expr_id: expression.map_ref(|e| e.id),
                 target_type: target_type.at_loc(target),
                 method: name.clone(),
+                of_trait: op_trait.as_ref().map(|t| t.name.clone()),
                 expr: self_type.at_loc(expression),
                 args: args_with_self,
                 turbofish: turbofish.clone(),
@@ -493,6 +494,7 @@ impl TypeState {
                 expr_id: expression.map_ref(|e| e.id),
                 target_type: target_type.at_loc(&callee),
                 method: name.clone(),
+                of_trait: None,
                 expr: self_type.at_loc(expression),
                 args: args.clone(),
                 turbofish: turbofish.clone(),
diff --git a/spade-typeinference/src/method_resolution.rs b/spade-typeinference/src/method_resolution.rs
index 81b9248..84e002f 100644
--- a/spade-typeinference/src/method_resolution.rs
+++ b/spade-typeinference/src/method_resolution.rs
@@ -97,6 +97,28 @@ pub fn select_method(
     takes_self: bool,
     trait_impls: &TraitImplList,
     type_state: &TypeState,
+) -> Result<Option<(Loc<NameID>, i32)>, Diagnostic> {
+    select_method_of_trait(
+        expr,
+        self_type_id,
+        method,
+        takes_self,
+        None,
+        trait_impls,
+        type_state,
+    )
+}
+
+/// Like [select_method], but if `of_trait` is specified, only considers the methods of that
+/// trait. Operators use this, they should not be affected by other methods of the same name.
+pub fn select_method_of_trait(
+    expr: Loc<()>,
+    self_type_id: &TypeVarID,
+    method: &Loc<Identifier>,
+    takes_self: bool,
+    of_trait: Option<&TraitName>,
+    trait_impls: &TraitImplList,
+    type_state: &TypeState,
 ) -> Result<Option<(Loc<NameID>, i32)>, Diagnostic> {
     let self_type = self_type_id.resolve(type_state);
     let mut raw_self_type_id = self_type_id.clone();
@@ -140,7 +162,7 @@ pub fn select_method(
                      impl_block: r#impl,
                  }| {
                     r#impl.fns.iter().map(move |(fn_name, actual_fn)| {
-                        if fn_name == &method.inner {
+                        if fn_name == &method.inner && of_trait.is_none_or(|t| t == name) {
                             let is_overlapping =
                                 spec_is_overlapping(&r#impl.target, &raw_self_type_id, type_state);
                             let selected = actual_fn.name.clone().at_loc(&actual_fn.fn_loc);
diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index b263913..d3a05ef 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -10,12 +10,12 @@ use spade_diagnostics::{Diagnostic, diag_anyhow, diag_assert, diag_bail};
 use spade_hir::expression::CallKind;
 use spade_hir::pretty_print::PrettyPrint;
 use spade_hir::symbol_table::{TypeDeclKind, TypeSymbol};
-use spade_hir::{ArgumentList, Expression, Generic, TypeExpression, WhereClauseKind};
+use spade_hir::{ArgumentList, Expression, Generic, TraitName, TypeExpression, WhereClauseKind};
 use spade_types::KnownType;
 
 use crate::equation::{ResolvedNamedOrInverted, TypeVar, TypeVarID};
 use crate::error::{Result, TypeMismatch, UnificationErrorExt};
-use crate::method_resolution::{FunctionLikeName, select_method};
+use crate::method_resolution::{FunctionLikeName, select_method_of_trait};
 use crate::trace_stack::TraceStackEntry;
 use crate::{Context, GenericListSource, GenericListToken, TypeState};
 
@@ -44,6 +44,8 @@ pub enum Requirement {
         target_type: Loc<TypeVarID>,
         /// The method which should exist on the type
         method: Loc<Identifier>,
+        /// If set, the method has to come from this trait
+        of_trait: Option<TraitName>,
         /// The expression from which this requirement arises
         expr: Loc<TypeVarID>,
         /// The argument list passed to the method. This should include the `self` expression as
@@ -237,6 +239,7 @@ impl Requirement {
                 expr_id,
                 target_type,
                 method,
+                of_trait,
                 expr,
                 args,
                 turbofish,
@@ -248,11 +251,12 @@ impl Requirement {
                     return Ok(RequirementResult::Satisfied(vec![]));
                 }
                 TypeVar::Known(_, _, _) => {
-                    let Some((implementor, self_view_layers_delta)) = select_method(
+                    let Some((implementor, self_view_layers_delta)) = select_method_of_trait(
                         expr.loc(),
                         target_type,
                         method,
                         *takes_self,
+                        of_trait.as_ref(),
                         &ctx.trait_impls,
                         type_state,
                     )?
-- 
2.43.0


From a078c6d8e8b29bfbe19cb777a4f140cf2c722410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 35/39] fix: resolve lib and pub(lib) in the library an item is
 defined in

---
 spade-hir/src/symbol_table.rs | 61 +++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1c8d773..2d49516 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -549,6 +549,10 @@ pub struct SymbolTable {
     namespace: Path,
     /// The namespace which `lib` refers to currently.
     base_namespace: Path,
+    /// The namespace which `lib` referred to where an item was defined. This is the one that
+    /// counts for the target of an alias and for the extent of `pub(lib)`, no matter which
+    /// library the item is used from.
+    base_namespaces: HashMap<NameID, Path>,
     #[serde(skip)]
     diags: Arc<Mutex<DiagList>>,
 }
@@ -569,6 +573,7 @@ impl SymbolTable {
             lang_items: HashMap::default(),
             namespace: Path(vec![]),
             base_namespace: Path(vec![]),
+            base_namespaces: HashMap::default(),
             diags,
         };
 
@@ -689,6 +694,8 @@ impl SymbolTable {
         visibility: Option<Loc<Visibility>>,
         deprecation_note: Option<Option<Loc<String>>>,
     ) {
+        self.base_namespaces
+            .insert(name_id.clone(), self.base_namespace.clone());
         self.things.insert(name_id.clone(), item);
         if let Some(vis) = visibility {
             self.visibilities.insert(name_id.clone(), vis);
@@ -772,6 +779,8 @@ impl SymbolTable {
             self.visibilities.insert(name_id.clone(), visibility);
         }
 
+        self.base_namespaces
+            .insert(name_id.clone(), self.base_namespace.clone());
         self.types.insert(name_id.clone(), t);
 
         self.symbols
@@ -959,9 +968,10 @@ impl SymbolTable {
         &self,
         path: &Loc<Path>,
         namespace: &Path,
+        base_namespace: &Path,
         check_metadata: bool,
     ) -> Result<(NameID, &Thing), LookupError> {
-        let id = self.lookup_id_in_namespace(path, namespace, check_metadata)?;
+        let id = self.lookup_id_impl(path, namespace, base_namespace, check_metadata)?;
 
         match self.things.get(&id) {
             Some(thing) => Ok((id, thing)),
@@ -977,7 +987,7 @@ impl SymbolTable {
         path: &Loc<Path>,
         ignore_metadata: bool,
     ) -> Result<(NameID, &Thing), LookupError> {
-        self.lookup_thing_impl(path, self.current_namespace(), ignore_metadata)
+        self.lookup_thing_in_namespace(path, self.current_namespace(), ignore_metadata)
     }
 
     pub fn lookup_thing_in_namespace(
@@ -986,7 +996,7 @@ impl SymbolTable {
         namespace: &Path,
         ignore_metadata: bool,
     ) -> Result<(NameID, &Thing), LookupError> {
-        self.lookup_thing_impl(path, namespace, ignore_metadata)
+        self.lookup_thing_impl(path, namespace, &self.base_namespace, ignore_metadata)
     }
 
     pub fn lang_item(&self, item: LangItem) -> &NameID {
@@ -1027,18 +1037,24 @@ macro_rules! thing_accessors {
                 namespace: &Path,
                 ignore_metadata: bool,
             ) -> Result<(NameID, Loc<$result>), LookupError> {
-                let (id, thing) =
+                let mut name = name;
+                let (mut id, mut thing) =
                     self.lookup_thing_in_namespace(name, namespace, ignore_metadata)?;
 
+                while let Thing::Alias { path, in_namespace, .. } = thing {
+                    name = path;
+                    (id, thing) = self.lookup_thing_impl(
+                        path,
+                        in_namespace,
+                        self.base_namespace_of(&id),
+                        ignore_metadata,
+                    )?;
+                }
+
                 match thing {
                     $(
                         $thing => {Ok((id, $conversion))}
                     )*,
-                    Thing::Alias { path, in_namespace, .. } => self.$lookup_in_ns_name(
-                        &path,
-                        &in_namespace,
-                        ignore_metadata,
-                    ),
                     other => Err(LookupError::$err(name.clone(), other.clone())),
                 }
             }
@@ -1229,10 +1245,26 @@ impl SymbolTable {
         name: &Loc<Path>,
         namespace: &Path,
         check_metadata: bool,
+    ) -> Result<NameID, LookupError> {
+        self.lookup_id_impl(name, namespace, &self.base_namespace, check_metadata)
+    }
+
+    /// The namespace which `lib` referred to where the specified item was defined
+    fn base_namespace_of(&self, id: &NameID) -> &Path {
+        self.base_namespaces.get(id).unwrap_or(&self.base_namespace)
+    }
+
+    fn lookup_id_impl(
+        &self,
+        name: &Loc<Path>,
+        namespace: &Path,
+        base_namespace: &Path,
+        check_metadata: bool,
     ) -> Result<NameID, LookupError> {
         let (offset, path, deprecation_note) = self.canonicalize_in_namespace(
             name,
             namespace,
+            base_namespace,
             &Default::default(),
             0,
             check_metadata,
@@ -1292,6 +1324,7 @@ impl SymbolTable {
         &self,
         path: &Loc<Path>,
         namespace: &Path,
+        base_namespace: &Path,
         forbidden: &HashSet<NameID>,
         offset: usize,
         check_metadata: bool,
@@ -1303,7 +1336,7 @@ impl SymbolTable {
             (PathPrefix::FromLib, lib_relative_path) => {
                 let segments = lib_relative_path.0.clone();
                 let off = self.current_scope();
-                let ns = self.base_namespace.clone();
+                let ns = base_namespace.clone();
 
                 (off, ns, segments)
             }
@@ -1406,7 +1439,7 @@ impl SymbolTable {
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
-                            Visibility::AtLib => self.base_namespace.clone(),
+                            Visibility::AtLib => self.base_namespace_of(id).clone(),
                             Visibility::AtSelf => working_path.prelude(),
                             Visibility::AtSuper => working_path.prelude().prelude(),
                             Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
@@ -1424,8 +1457,9 @@ impl SymbolTable {
                                 });
 
                         if !is_visible {
-                            let target_id =
-                                self.lookup_id_in_namespace(path, namespace, false).ok();
+                            let target_id = self
+                                .lookup_id_impl(path, namespace, base_namespace, false)
+                                .ok();
 
                             let target_item =
                                 target_id.as_ref().and_then(|id| self.item_loc_by_id(id));
@@ -1476,6 +1510,7 @@ impl SymbolTable {
                             .canonicalize_in_namespace(
                             alias_path,
                             in_namespace,
+                            self.base_namespace_of(id),
                             &local_forbidden,
                             offset,
                             check_metadata,
-- 
2.43.0


From b6239a228c3c9cc646760e6309fe151e8041dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 36/39] fix: stop at the end of the file in macro patterns and
 token streams

---
 spade-parser/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 4be9cbc..d2f1ce5 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -2662,6 +2662,10 @@ impl<'a> Parser<'a> {
             TokenKind::CloseBrace => error_stray_delimiter(&token, TokenKind::OpenBrace),
             TokenKind::CloseBracket => error_stray_delimiter(&token, TokenKind::OpenBracket),
             TokenKind::CloseParen => error_stray_delimiter(&token, TokenKind::OpenParen),
+            TokenKind::Eof => Err(Diagnostic::from(UnexpectedToken {
+                got: token,
+                expected: vec!["macro pattern"],
+            })),
             _ => {
                 let token = self.eat_unconditional()?;
                 let loc = token.loc();
@@ -2685,7 +2689,9 @@ impl<'a> Parser<'a> {
                 let mut nesting = 0;
                 let mut tokens = vec![];
 
-                while &s.peek()?.kind != close_token || nesting > 0 {
+                while (&s.peek()?.kind != close_token || nesting > 0)
+                    && s.peek()?.kind != TokenKind::Eof
+                {
                     let token = s.eat_unconditional()?;
                     let loc = token.loc();
 
-- 
2.43.0


From 3b56ab7788747466fd0d6ca2e12613d59cf0ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 37/39] fix: types in place of type level values are no
 internal error

---
 spade-typeinference/src/constraints.rs       | 10 +++++-----
 spade-typeinference/src/method_resolution.rs | 10 ++--------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index 6a47161..c3e4304 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -193,14 +193,14 @@ impl ConstraintExpr {
                     KnownType::Integer(i) => ConstraintExpr::Integer(i.clone()),
                     KnownType::Bool(b) => ConstraintExpr::Bool(b.clone()),
                     KnownType::String(s) => ConstraintExpr::String(s.clone()),
-                    KnownType::Error => self.clone(),
-                    KnownType::Named(_)
+                    // Types have no value. If one ended up here it does not unify with the type
+                    // level value which is needed, which is reported there
+                    KnownType::Error
+                    | KnownType::Named(_)
                     | KnownType::Tuple
                     | KnownType::Array
                     | KnownType::Inverted
-                    | KnownType::CopyView => {
-                        panic!("Inferred non-integer or bool for constraint variable")
-                    }
+                    | KnownType::CopyView => self.clone(),
                 },
                 TypeVar::Unknown(_, _, _, _) => self.clone(),
             },
diff --git a/spade-typeinference/src/method_resolution.rs b/spade-typeinference/src/method_resolution.rs
index 84e002f..bed9eab 100644
--- a/spade-typeinference/src/method_resolution.rs
+++ b/spade-typeinference/src/method_resolution.rs
@@ -361,14 +361,8 @@ fn expr_is_overlapping(expr: &TypeExpression, var: &TypeVarID, type_state: &Type
             TypeExpression::Bool(_) | TypeExpression::Integer(_) | TypeExpression::String(_),
             TypeVar::Unknown(_, _, _, _),
         ) => Overlap::Maybe,
-        (TypeExpression::Bool(_), _) => {
-            unreachable!("Non bool and non-generic type matched with bool")
-        }
-        (TypeExpression::Integer(_), _) => {
-            unreachable!("Non integer and non-generic type matched with integer")
-        }
-        (TypeExpression::String(_), _) => {
-            unreachable!("Non string and non-generic type matched with string")
+        (TypeExpression::Bool(_) | TypeExpression::Integer(_) | TypeExpression::String(_), _) => {
+            Overlap::No
         }
         (TypeExpression::TypeSpec(s), _v) => spec_is_overlapping(s, var, type_state),
         (TypeExpression::ConstGeneric(_), _) => {
-- 
2.43.0


From 11f6820dd1fbd1119794e77467e6899a9d67b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 38/39] fix: report missing impl parameters of trait methods

---
 spade-ast-lowering/src/impls.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index a0c2dec..4021927 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -202,6 +202,25 @@ pub fn visit_impl_inner(block: &Loc<ast::ImplBlock>, ctx: &mut Context) -> Resul
             "method",
         )?;
 
+        if impl_method.hidden_type_params.len() < trait_method.hidden_type_params.len() {
+            return Err(
+                Diagnostic::error(&impl_method.name, "Missing `impl` parameter")
+                    .primary_label(format!(
+                        "Expected {} `impl` parameter{}",
+                        trait_method.hidden_type_params.len(),
+                        if trait_method.hidden_type_params.len() != 1 {
+                            "s"
+                        } else {
+                            ""
+                        }
+                    ))
+                    .secondary_label(
+                        &trait_method.hidden_type_params[0],
+                        "Because of this parameter in the trait",
+                    ),
+            );
+        }
+
         let trait_method_mono =
             map_trait_method_parameters(trait_method, impl_method, &trait_def, &trait_spec, ctx)?;
 
-- 
2.43.0


From a20d0f71d40badc2cfb652e22e84d7efac04ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 39/39] fix: report type arguments which cannot be sizes

---
 spade-ast-lowering/src/builtins.rs           | 16 ++++-
 spade-ast-lowering/src/lib.rs                | 76 +++++++++++++++++---
 spade-typeinference/src/mir_type_lowering.rs |  8 +++
 spade-types/src/lib.rs                       | 28 +++++++-
 4 files changed, 116 insertions(+), 12 deletions(-)

diff --git a/spade-ast-lowering/src/builtins.rs b/spade-ast-lowering/src/builtins.rs
index f5389db..b7308aa 100644
--- a/spade-ast-lowering/src/builtins.rs
+++ b/spade-ast-lowering/src/builtins.rs
@@ -22,8 +22,12 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
                 .add_type_with_id(
                     id,
                     path,
-                    TypeSymbol::Declared(args.clone(), 0, TypeDeclKind::Primitive { is_inout })
-                        .nowhere(),
+                    TypeSymbol::Declared(
+                        args.clone(),
+                        args.len(),
+                        TypeDeclKind::Primitive { is_inout },
+                    )
+                    .nowhere(),
                     None,
                     None,
                 )
@@ -123,7 +127,13 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
     add_type("tri", vec![], PrimitiveType::Bool, false);
     add_type(
         "inout",
-        vec![GenericArg::uint(Identifier::intern("T")).nowhere()],
+        vec![
+            GenericArg::TypeName {
+                name: Identifier::intern("T"),
+                traits: vec![],
+            }
+            .nowhere(),
+        ],
         PrimitiveType::InOut,
         true,
     );
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index b389bf3..9c9e95d 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -22,7 +22,7 @@ use global_symbols::visit_meta_type;
 use impls::visit_impl;
 use itertools::Itertools;
 use lambda::visit_lambda;
-use num::{BigInt, BigUint, FromPrimitive, Zero};
+use num::{BigInt, BigUint, FromPrimitive, Signed, Zero};
 use pipelines::PipelineContext;
 use recursive::recursive;
 use spade_diagnostics::diag_list::{DiagList, ResultExt};
@@ -365,6 +365,60 @@ pub fn visit_type_expression(
     }
 }
 
+/// Check that a type expression which stands where a type level value is needed can be one. The
+/// values of const generics and of generic parameters are checked by the type checker.
+fn check_type_level_value(
+    expr: &Loc<hir::TypeExpression>,
+    meta: &MetaType,
+    kind: &TypeSpecKind,
+    ctx: &Context,
+) -> Result<()> {
+    let is_value = match &expr.inner {
+        // The type checker reports these together with the value that is bound
+        hir::TypeExpression::Integer(val) if val.is_negative() => {
+            meta != &MetaType::Uint || matches!(kind, TypeSpecKind::BindingType)
+        }
+        hir::TypeExpression::Integer(_) => {
+            matches!(meta, MetaType::Int | MetaType::Uint | MetaType::Number)
+        }
+        hir::TypeExpression::Bool(_) => meta == &MetaType::Bool,
+        hir::TypeExpression::String(_) => meta == &MetaType::Str,
+        hir::TypeExpression::ConstGeneric(_) => true,
+        hir::TypeExpression::TypeSpec(spec) => match spec {
+            hir::TypeSpec::Generic(Generic::Named(name)) => {
+                match &ctx.symtab.type_symbol_by_id(name).inner {
+                    TypeSymbol::GenericMeta(
+                        MetaType::Int | MetaType::Uint | MetaType::Number | MetaType::Any,
+                    ) => matches!(meta, MetaType::Int | MetaType::Uint | MetaType::Number),
+                    TypeSymbol::GenericMeta(given) => meta == given,
+                    // In an impl for all values of a type, the parameter stands for the value
+                    TypeSymbol::GenericArg { .. } => matches!(kind, TypeSpecKind::ImplTarget),
+                    TypeSymbol::Declared(_, _, _) => true,
+                }
+            }
+            hir::TypeSpec::Generic(Generic::Hidden(_)) | hir::TypeSpec::Wildcard(_) => true,
+            hir::TypeSpec::Declared(name, _) => matches!(
+                ctx.symtab.type_symbol_by_id(name).inner,
+                TypeSymbol::Declared(_, _, TypeDeclKind::Alias)
+            ),
+            hir::TypeSpec::Tuple(_)
+            | hir::TypeSpec::Array { .. }
+            | hir::TypeSpec::Inverted(_)
+            | hir::TypeSpec::CopyView(_)
+            | hir::TypeSpec::TraitSelf(_) => false,
+        },
+    };
+
+    if is_value || matches!(meta, MetaType::Any | MetaType::Type) {
+        Ok(())
+    } else {
+        Err(
+            Diagnostic::error(expr, format!("Expected {meta}, got {expr}"))
+                .primary_label(format!("Expected {meta}")),
+        )
+    }
+}
+
 pub fn visit_type_spec(
     t: &Loc<ast::TypeSpec>,
     kind: &TypeSpecKind,
@@ -403,6 +457,13 @@ pub fn visit_type_spec(
                     if visited_params.len() >= *min_required_params
                         && visited_params.len() <= generic_args.len()
                     {
+                        for (param, arg) in visited_params.iter().zip(generic_args) {
+                            if let hir::symbol_table::GenericArg::TypeWithMeta { meta, .. } =
+                                &arg.inner
+                            {
+                                check_type_level_value(param, meta, kind, ctx)?;
+                            }
+                        }
                         Ok(hir::TypeSpec::Declared(
                             base_id.at_loc(path),
                             visited_params,
@@ -476,6 +537,7 @@ pub fn visit_type_spec(
                 }
             };
             let size = Box::new(visit_type_expression(size, kind, ctx)?.at_loc(size));
+            check_type_level_value(&size, &MetaType::Uint, kind, ctx)?;
 
             Ok(hir::TypeSpec::Array { inner, size })
         }
@@ -1744,7 +1806,7 @@ pub fn visit_pattern(p: &ast::Pattern, ctx: &mut Context) -> Result<hir::Pattern
     let kind = match &p {
         ast::Pattern::Integer(val) => {
             hir::PatternKind::Integer(val.clone().as_signed(), int_literal_kind(val))
-        },
+        }
         ast::Pattern::Bool(val) => hir::PatternKind::Bool(*val),
         ast::Pattern::Bound(name, inner) => {
             let pat = visit_pattern(inner, ctx)?;
@@ -2142,12 +2204,10 @@ pub fn visit_turbofish(
 #[recursive]
 fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprKind> {
     match e {
-        ast::Expression::IntLiteral(val) => {
-            Ok(hir::ExprKind::IntLiteral(
-                val.inner.clone().as_signed(),
-                int_literal_kind(&val.inner),
-            ))
-        }
+        ast::Expression::IntLiteral(val) => Ok(hir::ExprKind::IntLiteral(
+            val.inner.clone().as_signed(),
+            int_literal_kind(&val.inner),
+        )),
         ast::Expression::BoolLiteral(val) => Ok(hir::ExprKind::BoolLiteral(val.inner)),
         ast::Expression::StrLiteral(val) => Err(Diagnostic::error(
             val,
diff --git a/spade-typeinference/src/mir_type_lowering.rs b/spade-typeinference/src/mir_type_lowering.rs
index b5c91c6..d632b02 100644
--- a/spade-typeinference/src/mir_type_lowering.rs
+++ b/spade-typeinference/src/mir_type_lowering.rs
@@ -383,6 +383,10 @@ impl TypeState {
         let t = self.type_of(&id.inner);
 
         if let Some(t) = self.ungenerify_type(&t, symtab, types) {
+            if t.has_negative_size() {
+                return Err(Diagnostic::error(id, "Type with a negative size")
+                    .primary_label(format!("This has type {t}")));
+            }
             Ok(t)
         } else {
             if std::env::var("SPADE_TRACE_TYPEINFERENCE").is_ok() {
@@ -407,6 +411,10 @@ impl TypeState {
         let t = self.type_of(&TypedExpression::Name(name.inner.clone()));
 
         if let Some(t) = self.ungenerify_type(&t, symtab, types) {
+            if t.has_negative_size() {
+                return Err(Diagnostic::error(name, "Type with a negative size")
+                    .primary_label(format!("{name} has type {t}")));
+            }
             Ok(t)
         } else {
             Err(
diff --git a/spade-types/src/lib.rs b/spade-types/src/lib.rs
index 1d34ca5..de741db 100644
--- a/spade-types/src/lib.rs
+++ b/spade-types/src/lib.rs
@@ -1,6 +1,6 @@
 pub mod meta_types;
 
-use num::BigInt;
+use num::{BigInt, Signed};
 use rustc_hash::FxHashMap as HashMap;
 use serde::{Deserialize, Serialize};
 use spade_common::{
@@ -62,6 +62,32 @@ pub enum ConcreteType {
 }
 
 impl ConcreteType {
+    /// Whether this type or any of its parts is an array, number or memory of a negative size
+    pub fn has_negative_size(&self) -> bool {
+        match self {
+            ConcreteType::Tuple(inner) => inner.iter().any(|t| t.has_negative_size()),
+            ConcreteType::Struct { members, .. } => {
+                members.iter().any(|(_, t)| t.has_negative_size())
+            }
+            ConcreteType::Array { inner, size } => size.is_negative() || inner.has_negative_size(),
+            ConcreteType::Enum { options } => options
+                .iter()
+                .flat_map(|(_, members)| members)
+                .any(|(_, t)| t.has_negative_size()),
+            ConcreteType::Single { params, .. } => params.iter().any(|p| match p {
+                ConcreteType::Integer(size) => size.is_negative(),
+                t => t.has_negative_size(),
+            }),
+            ConcreteType::Backward(inner) | ConcreteType::CopyView(inner) => {
+                inner.has_negative_size()
+            }
+            ConcreteType::Error
+            | ConcreteType::Integer(_)
+            | ConcreteType::Bool(_)
+            | ConcreteType::String(_) => false,
+        }
+    }
+
     pub fn assume_struct(&self) -> (&NameID, &Vec<(Identifier, ConcreteType)>) {
         match self {
             ConcreteType::Struct {
-- 
2.43.0

