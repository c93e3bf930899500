From 3633cb697522dc0adf626b75d64869b1dfe36bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 01/24] fix: keep the closing brace of a removable statement
 before an adjacent statement

When two statements follow each other with no white space, the closing
brace that ends the wrapper of the first one was emitted inside the text
of the second one, giving code that does not compile.
---
 src/libdredd/src/mutation_remove_stmt.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 7a5be63..c125d8c 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -147,8 +147,28 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // line, but this would make mutated files harder to read.
       to_insert = "\n" + to_insert;
     }
-    rewriter_result =
-        rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    const clang::SourceLocation last_character_location =
+        clang::Lexer::getAsCharRange(source_range,
+                                     ast_context.getSourceManager(),
+                                     ast_context.getLangOpts())
+            .getEnd()
+            .getLocWithOffset(-1);
+    const char last_character =
+        *ast_context.getSourceManager().getCharacterData(
+            last_character_location);
+    if (is_extended_with_semi || is_extended_with_comment ||
+        last_character == '}') {
+      // The statement ends with a semicolon, comment or closing brace. The
+      // text to be inserted is attached to the last character of the statement,
+      // rather than to the location that follows it: if another statement
+      // starts right there, without intervening white space, then text that is
+      // inserted before that statement must come after this text.
+      rewriter_result = rewriter.ReplaceText(last_character_location, 1,
+                                             last_character + to_insert);
+    } else {
+      rewriter_result =
+          rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    }
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   }
-- 
2.43.0


From a2f44a0f6f69d2de2e4bebaa1d1b71e6a43cce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 02/24] fix: handle operators spelled as alternative tokens or
 binary operators from macros

The operator text to be replaced was assumed to have the length of the
canonical operator symbol, which is wrong for 'and', 'or_eq', 'not' and so
on. A binary operator that comes from a macro has no text in the main file
that can be replaced, so it is no longer mutated.
---
 src/libdredd/src/mutate_visitor.cc                   | 6 ++++++
 src/libdredd/src/mutation_replace_binary_operator.cc | 8 +++++---
 src/libdredd/src/mutation_replace_unary_operator.cc  | 8 +++++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..bc1863c 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -443,6 +443,12 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // If the operator symbol itself comes from a macro then there is no text in
+  // the main file that can be replaced in order to rewrite the operator.
+  if (binary_operator->getOperatorLoc().isMacroID()) {
+    return;
+  }
+
   // We only want to change operators for binary operations on basic types.
   // Check that the argument types are supported.
   if (!IsTypeSupported(binary_operator->getLHS()->getType())) {
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..77156eb 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -28,6 +28,8 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -656,9 +658,9 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // Replace the operator symbol with ","
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       ",");
 
   // These record the text that should be inserted before and after the LHS and
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..154595c 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -24,6 +24,8 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -411,9 +413,9 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // Remove the operator symbol.
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       "");
 
   // These record the text that should be inserted before and after the operand.
-- 
2.43.0


From 68f576c4a84537dacb460f2627d0c851f0b8f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:42 +0000
Subject: [PATCH 03/24] fix: do not make the value of a GNU statement
 expression removable

The last statement of ({ ... }) is its value; wrapping it in 'if' made the
expression void and the mutated file did not compile.
---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index bc1863c..1830c66 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -709,6 +709,14 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
       // without risking breaking compilation.
       continue;
     }
+    if (stmt == compound_stmt->body_back() &&
+        GetFirstParentOfType<clang::StmtExpr>(
+            *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
+      // The last statement of a GNU statement expression provides the value of
+      // the overall expression, which would be lost if the statement were to be
+      // wrapped in conditional code.
+      continue;
+    }
     if (options_->GetOptimiseMutations() &&
         llvm::dyn_cast<clang::CompoundStmt>(target_stmt) != nullptr) {
       // It is likely redundant to remove a compound statement since each of its
-- 
2.43.0


From a7d7292463568b6c74ca440f1972344bf3ea2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:36 +0000
Subject: [PATCH 04/24] fix: do not pass register variables or vector elements
 by reference

Neither can have its address taken (or a reference bound to it), so mutated
code using them did not compile.
---
 src/libdredd/include/libdredd/util.h      |  5 ++++
 src/libdredd/src/mutate_visitor.cc        | 17 +++++++------
 src/libdredd/src/mutation_replace_expr.cc |  8 +++---
 src/libdredd/src/util.cc                  | 30 +++++++++++++++++++++++
 4 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..40cc6e1 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -91,6 +91,11 @@ bool EvaluateAsFloat(const clang::Expr& expr,
 bool IsCxx11ConstantExpr(const clang::Expr& expr,
                          const clang::ASTContext& ast_context);
 
+// Returns false if |expr| is an l-value to which no reference can be bound (or,
+// in C, whose address cannot be taken), such as a bit-field.
+bool CanBePassedByReference(const clang::Expr& expr,
+                            const clang::ASTContext& ast_context);
+
 // It is often necessary to ask whether a given statement (which includes
 // expressions) has a parent of a given type. This helper returns nullptr if
 // the given statement has no parent of the template parameter type, and
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 1830c66..4573f85 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -387,11 +387,12 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   }
 
   // Mutation functions for ++ and -- operators require their argument to be
-  // passed by reference. It is not possible to pass bit-fields by reference,
-  // this mutation of these operators when applied to bit-fields is not
-  // supported.
+  // passed by reference. It is not possible to pass bit-fields, vector elements
+  // or C register variables by reference, thus mutation of these operators when
+  // applied to such an argument is not supported.
   if (unary_operator->isIncrementDecrementOp() &&
-      unary_operator->getSubExpr()->refersToBitField()) {
+      !CanBePassedByReference(*unary_operator->getSubExpr(),
+                              compiler_instance_->getASTContext())) {
     return;
   }
 
@@ -460,10 +461,12 @@ void MutateVisitor::HandleBinaryOperator(
 
   // Mutation functions for assignment operators (for example +=) require their
   // first argument to be passed by reference. It is not possible to pass
-  // bit-fields by reference, this mutation of these operators when applied to a
-  // bit-field first argument is not supported.
+  // bit-fields, vector elements or C register variables by reference, thus
+  // mutation of these operators when applied to such a first argument is not
+  // supported.
   if (binary_operator->isAssignmentOp() &&
-      binary_operator->getLHS()->refersToBitField()) {
+      !CanBePassedByReference(*binary_operator->getLHS(),
+                              compiler_instance_->getASTContext())) {
     return;
   }
 
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..82f6673 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -699,10 +699,10 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   if (expr.getType().isConstQualified() || expr.getType()->isBooleanType()) {
     return false;
   }
-  // Bit-fields cannot be passed by reference, and mutator functions for
-  // l-values must be passed by reference, hence bit-fields are not supported
-  // in this context.
-  if (expr.refersToBitField()) {
+  // Mutator functions for l-values must be passed by reference, which is not
+  // possible for e.g. bit-fields, hence such l-values are not supported in this
+  // context.
+  if (!CanBePassedByReference(expr, ast_context)) {
     return false;
   }
   // The following checks that `expr` is the child of an ImplicitCastExpr that
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..f416dc3 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -19,13 +19,17 @@
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Decl.h"
 #include "clang/AST/Expr.h"
+#include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/SourceManager.h"
+#include "clang/Basic/Specifiers.h"
 #include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -189,6 +193,32 @@ bool IsCxx11ConstantExpr(const clang::Expr& expr,
   return !expr.isValueDependent() && expr.isCXX11ConstantExpr(ast_context);
 }
 
+bool CanBePassedByReference(const clang::Expr& expr,
+                            const clang::ASTContext& ast_context) {
+  if (expr.refersToBitField() || expr.refersToVectorElement()) {
+    return false;
+  }
+  if (ast_context.getLangOpts().CPlusPlus) {
+    return true;
+  }
+  // In C it is not allowed to take the address of (part of) a variable with
+  // register storage class.
+  const clang::Expr* base = expr.IgnoreParens();
+  while (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(base)) {
+    if (member_expr->isArrow()) {
+      return true;
+    }
+    base = member_expr->getBase()->IgnoreParens();
+  }
+  if (const auto* decl_ref_expr = llvm::dyn_cast<clang::DeclRefExpr>(base)) {
+    if (const auto* var_decl =
+            llvm::dyn_cast<clang::VarDecl>(decl_ref_expr->getDecl())) {
+      return var_decl->getStorageClass() != clang::SC_Register;
+    }
+  }
+  return true;
+}
+
 [[nodiscard]] clang::SourceRange GetSourceRangeInMainFile(
     const clang::Preprocessor& preprocessor,
     const clang::SourceRange& source_range) {
-- 
2.43.0


From 6032895fa9a34c4bbf12b09b19475502eda43cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:28 +0000
Subject: [PATCH 05/24] fix: keep sign and type of constants rewritten in
 template arguments

Negative values were printed as large unsigned ones, enumerators were replaced
by integers, and arguments of 'auto' parameters lost their type.
---
 .../include/libdredd/mutate_ast_consumer.h    |  4 +-
 src/libdredd/src/mutate_ast_consumer.cc       | 52 +++++++++++++------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..a1a4079 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -65,8 +65,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
 
   void RewriteExpressionsInMainFile();
 
-  bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+  bool RewriteExpressionInMainFile(const clang::Expr* expr,
+                                   const std::string& replacement);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..99dfe7a 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -39,6 +39,7 @@
 #include "libdredd/util.h"
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
@@ -195,14 +196,14 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
     while (
         auto constant_array_typeloc =
             typeloc.getUnqualifiedLoc().getAs<clang::ConstantArrayTypeLoc>()) {
-      RewriteExpressionInMainFileToIntegerConstant(
+      RewriteExpressionInMainFile(
           constant_array_typeloc.getSizeExpr(),
-          llvm::dyn_cast<clang::ConstantArrayType>(
-              constant_array_typeloc.getType()
-                  ->getAsArrayTypeUnsafe()
-                  ->getAsArrayTypeUnsafe())
-              ->getSize()
-              .getLimitedValue());
+          std::to_string(llvm::dyn_cast<clang::ConstantArrayType>(
+                             constant_array_typeloc.getType()
+                                 ->getAsArrayTypeUnsafe()
+                                 ->getAsArrayTypeUnsafe())
+                             ->getSize()
+                             .getLimitedValue()));
       typeloc = constant_array_typeloc.getElementLoc();
     }
   }
@@ -212,8 +213,7 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
   // 1 would have caused the front-end used by Dredd to fail.
   for (const auto& static_assert_decl :
        visitor_->GetStaticAssertionsToRewrite()) {
-    RewriteExpressionInMainFileToIntegerConstant(
-        static_assert_decl->getAssertExpr(), 1);
+    RewriteExpressionInMainFile(static_assert_decl->getAssertExpr(), "1");
   }
 
   // Rewrite the constant integer arguments of builtin functions and templates.
@@ -224,27 +224,45 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
       continue;
     }
     already_rewritten.insert(constant_argument_expresion);
+    const clang::QualType type =
+        constant_argument_expresion->IgnoreParenImpCasts()->getType();
+    if (type->isEnumeralType()) {
+      // An integer cannot be used in place of an enumeration value.
+      continue;
+    }
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
-      // Argument is an integer constant
-      RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+      // Argument is an integer constant. Its sign must be preserved, and so
+      // must any type other than the type of an integer literal: a template
+      // argument's type can matter.
+      std::string replacement = llvm::toString(*integer_const_expr, 10);
+      if (const auto* builtin_type = type->getAs<clang::BuiltinType>()) {
+        if (builtin_type->getKind() != clang::BuiltinType::Int &&
+            builtin_type->getKind() != clang::BuiltinType::Bool) {
+          replacement =
+              "(" +
+              builtin_type
+                  ->getName(
+                      compiler_instance_->getASTContext().getPrintingPolicy())
+                  .str() +
+              ")(" + replacement + ")";
+        }
+      }
+      RewriteExpressionInMainFile(constant_argument_expresion, replacement);
     }
   }
 }
 
-bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+bool MutateAstConsumer::RewriteExpressionInMainFile(
+    const clang::Expr* expr, const std::string& replacement) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    std::stringstream stringstream;
-    stringstream << integer_constant;
-    rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
+    rewriter_.ReplaceText(source_range_in_main_file, replacement);
     return true;
   }
   return false;
-- 
2.43.0


From 815252284e8248a18063ec7d01b1c5e5616f9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:33 +0000
Subject: [PATCH 06/24] fix: leave arguments of builtins that must be constants
 alone

Only __builtin_frame_address was catered for; other builtins with constant
arguments, vector shuffles and __builtin_choose_expr led to code that did not
compile, and mutating the argument of __builtin_constant_p changed its result.
---
 src/libdredd/src/mutate_visitor.cc | 46 ++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 4573f85..a8d79fb 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -22,6 +22,7 @@
 #include <optional>
 #include <string>
 
+#include "clang/AST/ASTContext.h"
 #include "clang/AST/Attrs.inc"
 #include "clang/AST/Decl.h"
 #include "clang/AST/DeclBase.h"
@@ -269,14 +270,49 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
   // arguments' expressions so that they can be rewritten with the values to
   // which the expressions would normally evaluate.
   if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(stmt)) {
-    if (call_expr->getBuiltinCallee() ==
-        clang::Builtin::BI__builtin_frame_address) {
-      // callee is `__builtin_frame_address()`
-      constant_arguments_to_rewrite_.push_back(call_expr->getArg(0));
-      return true;
+    const unsigned builtin_id = call_expr->getBuiltinCallee();
+    if (builtin_id != 0) {
+      auto& ast_context = compiler_instance_->getASTContext();
+      // Get a bit mask that says which arguments must be constants.
+      clang::ASTContext::GetBuiltinTypeError error =
+          clang::ASTContext::GE_None;
+      unsigned constant_arguments = 0;
+      (void)ast_context.GetBuiltinType(builtin_id, error, &constant_arguments);
+      switch (builtin_id) {
+        case clang::Builtin::BI__builtin_constant_p:
+          // Whether the argument is a constant is the purpose of the call.
+          constant_arguments |= 1U;
+          break;
+        case clang::Builtin::BI__builtin_prefetch:
+        case clang::Builtin::BI__builtin_assume_aligned:
+          // The optional arguments must be constants.
+          constant_arguments |= ~1U;
+          break;
+        case clang::Builtin::BI__builtin_object_size:
+        case clang::Builtin::BI__builtin_dynamic_object_size:
+          constant_arguments |= 2U;
+          break;
+        default:
+          break;
+      }
+      if (constant_arguments != 0) {
+        for (unsigned i = 0; i < call_expr->getNumArgs(); i++) {
+          if (i < 32 && (constant_arguments & (1U << i)) != 0) {
+            constant_arguments_to_rewrite_.push_back(call_expr->getArg(i));
+          }
+        }
+        return true;
+      }
     }
   }
 
+  // Similarly, the indices of a vector shuffle and the condition of
+  // `__builtin_choose_expr` must be constants.
+  if (llvm::dyn_cast<clang::ShuffleVectorExpr>(stmt) != nullptr ||
+      llvm::dyn_cast<clang::ChooseExpr>(stmt) != nullptr) {
+    return true;
+  }
+
   // Do not mutate expression under `decltype`, as Dredd doesn't change the type
   // of underlying expression.
   if (const auto* cast_expr = llvm::dyn_cast<clang::CastExpr>(stmt)) {
-- 
2.43.0


From 10dc180894231cc23d834d0cf30f37542d61c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:59 +0000
Subject: [PATCH 07/24] fix: do not wrap statements that follow a loop pragma
 in conditional code

A pragma such as '#pragma unroll' must directly precede its loop, so making the
loop removable led to code that did not compile.
---
 src/libdredd/src/mutate_visitor.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index a8d79fb..408422c 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -16,6 +16,7 @@
 
 #include <llvm/ADT/ArrayRef.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <memory>
@@ -23,6 +24,7 @@
 #include <string>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Attr.h"
 #include "clang/AST/Attrs.inc"
 #include "clang/AST/Decl.h"
 #include "clang/AST/DeclBase.h"
@@ -36,6 +38,7 @@
 #include "clang/AST/TemplateBase.h"
 #include "clang/AST/Type.h"
 #include "clang/AST/TypeLoc.h"
+#include "clang/Basic/AttributeCommonInfo.h"
 #include "clang/Basic/Builtins.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
@@ -748,6 +751,19 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
       // without risking breaking compilation.
       continue;
     }
+    if (const auto* attributed_stmt =
+            llvm::dyn_cast<clang::AttributedStmt>(target_stmt)) {
+      if (std::any_of(attributed_stmt->getAttrs().begin(),
+                      attributed_stmt->getAttrs().end(),
+                      [](const clang::Attr* attr) {
+                        return attr->getSyntax() ==
+                               clang::AttributeCommonInfo::AS_Pragma;
+                      })) {
+        // A pragma, such as "#pragma unroll", must be directly followed by the
+        // statement to which it applies.
+        continue;
+      }
+    }
     if (stmt == compound_stmt->body_back() &&
         GetFirstParentOfType<clang::StmtExpr>(
             *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
-- 
2.43.0


From 4420e9370035634a023dabad1a65effda9d42e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:20 +0000
Subject: [PATCH 08/24] fix: do not move expressions that depend on the
 enclosing function into lambdas

In C++, expressions with side effects are passed to mutator functions as
lambdas. A 'return' in a statement expression then left only the lambda,
__func__ named the lambda, co_await did not compile, and memory obtained from
alloca was released too early.
---
 .../include/libdredd/mutate_visitor.h         |  7 +++
 src/libdredd/src/mutate_visitor.cc            | 45 +++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 3f0e50a..558040f 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -243,6 +243,13 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   static bool MayDependOnLifetimeOfMaterializedTemporaryStorage(
       const clang::Expr& expr);
 
+  // In C++, mutation may lead to an expression being moved into the body of a
+  // lambda. This function checks whether |stmt| contains something whose
+  // meaning depends on the function that directly encloses it, such as a GNU
+  // statement expression (which may contain a return statement), "__func__",
+  // "co_await" or a call to "alloca".
+  static bool DependsOnEnclosingFunction(const clang::Stmt& stmt);
+
   // Recursively saves constant template arguments that need to be rewritten
   // later to avoid compilation errors.
   void SaveConstantTemplateArgumentForRewrite(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 408422c..245a193 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -694,6 +694,13 @@ bool MutateVisitor::VisitExpr(clang::Expr* expr) {
     return true;
   }
 
+  if (compiler_instance_->getLangOpts().CPlusPlus &&
+      DependsOnEnclosingFunction(*expr)) {
+    // Do not mutate this expression, because doing so might move it into the
+    // body of a lambda.
+    return true;
+  }
+
   if (auto* unary_operator = llvm::dyn_cast<clang::UnaryOperator>(expr)) {
     HandleUnaryOperator(unary_operator);
   }
@@ -930,6 +937,44 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   return false;
 }
 
+bool MutateVisitor::DependsOnEnclosingFunction(const clang::Stmt& stmt) {
+  if (llvm::isa<clang::LambdaExpr>(stmt)) {
+    // The body of a lambda has the lambda as its enclosing function.
+    return false;
+  }
+  if (llvm::isa<clang::StmtExpr>(stmt) ||
+      llvm::isa<clang::PredefinedExpr>(stmt) ||
+      llvm::isa<clang::AddrLabelExpr>(stmt) ||
+      llvm::isa<clang::CoroutineSuspendExpr>(stmt) ||
+      llvm::isa<clang::DependentCoawaitExpr>(stmt)) {
+    return true;
+  }
+  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&stmt)) {
+    switch (call_expr->getBuiltinCallee()) {
+      case clang::Builtin::BIalloca:
+      case clang::Builtin::BI__builtin_alloca:
+      case clang::Builtin::BI__builtin_alloca_uninitialized:
+      case clang::Builtin::BI__builtin_alloca_with_align:
+      case clang::Builtin::BI__builtin_alloca_with_align_uninitialized:
+        // The memory would be released when the lambda returns.
+        return true;
+      default:
+        break;
+    }
+    const auto* callee = call_expr->getDirectCallee();
+    if (callee != nullptr && callee->hasAttr<clang::ReturnsTwiceAttr>()) {
+      // A function such as "setjmp" must be called from the function whose
+      // context it saves.
+      return true;
+    }
+  }
+  return std::any_of(stmt.child_begin(), stmt.child_end(),
+                     [](const clang::Stmt* child) {
+                       return child != nullptr &&
+                              DependsOnEnclosingFunction(*child);
+                     });
+}
+
 void MutateVisitor::SaveConstantTemplateArgumentForRewrite(
     const clang::TemplateSpecializationType* template_specialization_type) {
   for (auto template_argument :
-- 
2.43.0


From dd86ae6bca87b222bca7e7c255d1b5db42f595cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:36 +0000
Subject: [PATCH 09/24] fix: do not form dangling references to temporaries in
 assignments and member calls

The check for references into materialized temporaries missed the operands of
++, -- and assignment operators, the object of a method call, array subscripts
and dereferences.
---
 src/libdredd/src/mutate_visitor.cc | 64 ++++++++++++++++--------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 245a193..90dc80a 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -435,6 +435,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // A reference to the argument of ++ or -- would dangle if it refers to
+  // temporary storage that only exists inside a lambda.
+  if (unary_operator->getSubExpr()->isLValue() &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(
+          *unary_operator->getSubExpr())) {
+    return;
+  }
+
   if (options_->GetOptimiseMutations()) {
     if (unary_operator->getOpcode() == clang::UO_Minus &&
         (MutationReplaceExpr::ExprIsEquivalentToInt(
@@ -509,6 +517,14 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // Similarly, a reference to the first argument would dangle if it refers to
+  // temporary storage that only exists inside a lambda.
+  if (binary_operator->isAssignmentOp() &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(
+          *binary_operator->getLHS())) {
+    return;
+  }
+
   if (binary_operator->isCommaOp()) {
     // The comma operator is so versatile that it does not make a great deal of
     // sense to try to rewrite it.
@@ -687,7 +703,9 @@ bool MutateVisitor::VisitExpr(clang::Expr* expr) {
     return true;
   }
 
-  if (MayDependOnLifetimeOfMaterializedTemporaryStorage(*expr)) {
+  if ((expr->isLValue() ||
+       llvm::dyn_cast<clang::MaterializeTemporaryExpr>(expr) != nullptr) &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(*expr)) {
     // Do not mutate a call expression if there is a risk that the value
     // returned by the call might be a reference to temporary storage arising
     // from a materialized temporary expression.
@@ -905,36 +923,24 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
     return true;
   }
 
-  if (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(&expr)) {
-    // Consider a member expression whose base expression may depend on the
-    // lifetime of a materialized temporary. If the member expression yields
-    // an lvalue or a pointer, then the member expression itself may depend on
-    // the lifetime of the materialized temporary.
-    if (member_expr->isLValue() || member_expr->getType()->isPointerType()) {
-      return MayDependOnLifetimeOfMaterializedTemporaryStorage(
-          *member_expr->getBase());
-    }
-    return false;
-  }
-
-  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&expr)) {
-    // Consider a calll expression that returns an lvalue or pointer. If some
-    // argument to the call depends on the lifetime of a materialized temporary
-    // then the overall call expression may do so too. In practice this occurs
-    // in the context of the [] operator on a std::vector. When the target
-    // vector is a temporary, the [] operator may yield a reference into
-    // storage owned by the temporary.
-    if (call_expr->isLValue() || call_expr->getType()->isPointerType()) {
-      for (const auto* arg : call_expr->arguments()) {
-        if (MayDependOnLifetimeOfMaterializedTemporaryStorage(*arg)) {
-          return true;
-        }
-      }
-    }
+  // Consider an expression, such as a member expression, an array subscript or
+  // a call, that yields an lvalue or pointer. If some part of the expression
+  // (e.g. the object on which a method is called, or an argument of a call)
+  // depends on the lifetime of a materialized temporary then the overall
+  // expression may do so too. In practice this occurs in the context of the []
+  // operator on a std::vector. When the target vector is a temporary, the []
+  // operator may yield a reference into storage owned by the temporary.
+  if (!expr.isGLValue() && !expr.getType()->isPointerType() &&
+      !expr.hasPlaceholderType(clang::BuiltinType::BoundMember)) {
     return false;
   }
-
-  return false;
+  return std::any_of(
+      expr.child_begin(), expr.child_end(), [](const clang::Stmt* child) {
+        const auto* child_expr =
+            llvm::dyn_cast_if_present<clang::Expr>(child);
+        return child_expr != nullptr &&
+               MayDependOnLifetimeOfMaterializedTemporaryStorage(*child_expr);
+      });
 }
 
 bool MutateVisitor::DependsOnEnclosingFunction(const clang::Stmt& stmt) {
-- 
2.43.0


From e82242de8d1ee91e4298879a4a871c77c8c78f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:22 +0000
Subject: [PATCH 10/24] fix: do not record coverage for expressions that have
 no mutants

Such an expression shares its local id with the next one, which was then taken
to be recorded already, or accessed the array of recorded ids out of bounds.
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 2 +-
 src/libdredd/src/mutation_replace_expr.cc            | 2 +-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 77156eb..3f28b8b 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -503,7 +503,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
                               mutation_id, new_function, mutation_id_offset,
                               protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 82f6673..c36792c 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -496,7 +496,7 @@ std::string MutationReplaceExpr::GenerateMutatorFunction(
       ast_context, optimise_mutations, only_track_mutant_coverage, mutation_id,
       new_function, mutation_id_offset, protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 154595c..d8a4935 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -231,7 +231,7 @@ std::string MutationReplaceUnaryOperator::GenerateMutatorFunction(
       only_track_mutant_coverage, mutation_id, new_function, mutation_id_offset,
       protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
-- 
2.43.0


From 9fc04f681f5816aecb6e42b67dab1a28ad2702ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:22 +0000
Subject: [PATCH 11/24] fix: survive a mutant tracking file that cannot be
 opened in C

The C prelude passed a null FILE pointer to fprintf and fclose.
---
 src/libdredd/src/mutate_ast_consumer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 99dfe7a..80ea907 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -474,6 +474,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
             "getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (!dredd_tracking_environment_variable) return;\n";
   result << "  FILE* fp = fopen(dredd_tracking_environment_variable, \"a\");\n";
+  result << "  if (!fp) return;\n";
   result << "  for (int i = 0; i < num_mutations; i++) {\n";
   result << R"(    fprintf(fp, "%d\n", )" + std::to_string(initial_mutation_id)
          << " + local_mutation_id + i);\n";
-- 
2.43.0


From 97df6e1612b3a66a43a6e93f5f2774c7c59de537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:26 +0000
Subject: [PATCH 12/24] fix: treat columns as byte offsets in
 query_mutant_info.py

Text after a multi-byte character on the same line was reported shifted.
---
 scripts/query_mutant_info.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index badea50..df095b8 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -57,6 +57,10 @@ def parenthesise_if_needed(expr_text: str) -> str:
     return f"({expr_text})"
 
 
+def decode(source_text: bytes) -> str:
+    return source_text.decode('utf-8', errors='replace').replace('\r\n', '\n')
+
+
 # Returns:
 # (range is on single line?, range description, blank prefix, text for range)
 def get_text_for_source_range(start_location: Dict[str, int],
@@ -69,15 +73,16 @@ def get_text_for_source_range(start_location: Dict[str, int],
     end_column = end_location['column']
     range_description = f"{filename_without_prefix}, {start_line}:{start_column}--{end_line}:{end_column}"
 
-    lines = open(original_source_code_filename, 'r').readlines()
+    # Columns count bytes, so bytes are read and text is decoded after slicing.
+    lines = open(original_source_code_filename, 'rb').readlines()
     if start_line == end_line:
-        return True, range_description, "", lines[start_line - 1][start_column - 1:end_column - 1]
+        return True, range_description, "", decode(lines[start_line - 1][start_column - 1:end_column - 1])
     blank_prefix: str = " " * (start_column - 1)
-    source_range_text: str = lines[start_line - 1][start_column - 1:]
+    source_range_text: bytes = lines[start_line - 1][start_column - 1:]
     for i in range(start_line, end_line - 1):
         source_range_text += lines[i]
     source_range_text += lines[end_line - 1][0:end_column - 1]
-    return False, range_description, blank_prefix, source_range_text
+    return False, range_description, blank_prefix, decode(source_range_text)
 
 
 def show_info_for_replace_expr(mutant_info: MutantInfo,
-- 
2.43.0


From 923dc037373d2a223923c75feb05320f9a5a9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 13/24] fix: recognise a file that is named in different ways
 as the same file

A path using '..' led to the file being mutated a second time.
---
 .../src/new_mutate_frontend_action_factory.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..59d2d53 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,10 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/FileSystem.h"
+#include "llvm/Support/Path.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -54,8 +57,20 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     (void)input_exists;  // Keep release-mode compilers happy.
     assert(input_exists && "No current file.");
 
+    // The same file can be named in several ways (e.g. using ".."), so identify
+    // it via the real path of its directory.
+    const llvm::StringRef current_file = getCurrentFile();
+    llvm::SmallString<256> file_path;
+    if (llvm::sys::fs::real_path(
+            llvm::sys::path::parent_path(current_file), file_path)) {
+      file_path = current_file;
+    } else {
+      llvm::sys::path::append(file_path,
+                              llvm::sys::path::filename(current_file));
+    }
+
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    if (processed_files_->contains(file_path.str().str())) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -63,7 +78,7 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
 
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
-    processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(file_path.str().str());
     return true;
   }
 
-- 
2.43.0


From a609ea76017ef65b2f04684fe02a2aa613b7cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 14/24] fix: visit the common operand of a GNU conditional with
 omitted operand once

---
 .../include_private/include/libdredd/mutate_visitor.h |  5 +++++
 src/libdredd/src/mutate_visitor.cc                    | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 558040f..5de26aa 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -57,6 +57,11 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // statements.
   bool TraverseCaseStmt(clang::CaseStmt* case_stmt);
 
+  // Overridden in order to visit the operand that provides both the condition
+  // and the result of a GNU "a ?: b" expression only once.
+  bool TraverseBinaryConditionalOperator(
+      clang::BinaryConditionalOperator* binary_conditional_operator);
+
   // Overridden to avoid mutating constant array size expressions.
   bool TraverseConstantArrayTypeLoc(
       clang::ConstantArrayTypeLoc constant_array_type_loc);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 90dc80a..76b78ba 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -337,6 +337,17 @@ bool MutateVisitor::TraverseCaseStmt(clang::CaseStmt* case_stmt) {
   return TraverseStmt(case_stmt->getSubStmt());
 }
 
+bool MutateVisitor::TraverseBinaryConditionalOperator(
+    clang::BinaryConditionalOperator* binary_conditional_operator) {
+  WalkUpFromBinaryConditionalOperator(binary_conditional_operator);
+  // The condition and the result if the condition holds are both conversions of
+  // the common operand, and are not written separately in the source code. If
+  // the conversion to a condition were mutated, its result would wrongly be
+  // used as the result of the overall expression.
+  return TraverseStmt(binary_conditional_operator->getCommon()) &&
+         TraverseStmt(binary_conditional_operator->getFalseExpr());
+}
+
 bool MutateVisitor::TraverseConstantArrayTypeLoc(
     clang::ConstantArrayTypeLoc constant_array_type_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From d8246fd884961813fb65575d4310b9698a4146eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 15/24] fix: do not make statements that end in co_yield
 removable

---
 src/libdredd/src/mutate_visitor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 76b78ba..699052a 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -44,6 +44,7 @@
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/TypeTraits.h"
 #include "clang/Frontend/CompilerInstance.h"
+#include "clang/Lex/Lexer.h"
 #include "libdredd/mutation.h"
 #include "libdredd/mutation_remove_stmt.h"
 #include "libdredd/mutation_replace_binary_operator.h"
@@ -800,6 +801,15 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
         continue;
       }
     }
+    if (clang::Lexer::getSourceText(
+            clang::CharSourceRange::getTokenRange(target_stmt->getEndLoc()),
+            compiler_instance_->getSourceManager(),
+            compiler_instance_->getLangOpts()) == "co_yield") {
+      // Clang takes a 'co_yield' expression to end at its keyword, so if a
+      // statement ends with such an expression then it is not known where the
+      // statement really ends.
+      continue;
+    }
     if (stmt == compound_stmt->body_back() &&
         GetFirstParentOfType<clang::StmtExpr>(
             *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
-- 
2.43.0


From 2af192ca4502242dfe9737b5039f0d2a1e80a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:45 +0000
Subject: [PATCH 16/24] fix: do not copy x-values that are bound to references

---
 src/libdredd/src/mutate_visitor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 699052a..5c6bba0 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -575,6 +575,18 @@ void MutateVisitor::HandleExpr(clang::Expr* expr) {
     return;
   }
 
+  // Mutating an x-value leads to a copy of its value. This is only acceptable if
+  // the value is all that is used: if the x-value is bound to a reference then
+  // the reference must refer to the original object.
+  if (expr->isXValue()) {
+    const auto* cast_parent = GetFirstParentOfType<clang::ImplicitCastExpr>(
+        *expr, compiler_instance_->getASTContext());
+    if (cast_parent == nullptr ||
+        cast_parent->getCastKind() != clang::CK_LValueToRValue) {
+      return;
+    }
+  }
+
   // It is incorrect to attempt to mutate braced initializer lists.
   if (llvm::dyn_cast<clang::InitListExpr>(expr) != nullptr) {
     return;
-- 
2.43.0


From 152cf20c756611b763bdd947bcd7edda52959c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:07 +0000
Subject: [PATCH 17/24] fix: do not mutate the operand of typeof

---
 .../include_private/include/libdredd/mutate_visitor.h  |  5 +++++
 src/libdredd/src/mutate_visitor.cc                     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 5de26aa..8133420 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -62,6 +62,11 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseBinaryConditionalOperator(
       clang::BinaryConditionalOperator* binary_conditional_operator);
 
+  // Overridden to avoid mutating the operand of a GNU "typeof", which is not
+  // evaluated.
+  bool TraverseTypeOfExprTypeLoc(
+      clang::TypeOfExprTypeLoc type_of_expr_type_loc);
+
   // Overridden to avoid mutating constant array size expressions.
   bool TraverseConstantArrayTypeLoc(
       clang::ConstantArrayTypeLoc constant_array_type_loc);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 5c6bba0..d6adf12 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -349,6 +349,16 @@ bool MutateVisitor::TraverseBinaryConditionalOperator(
          TraverseStmt(binary_conditional_operator->getFalseExpr());
 }
 
+bool MutateVisitor::TraverseTypeOfExprTypeLoc(
+    clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)type_of_expr_type_loc;
+  // Only the type of the expression matters.
+  return true;
+}
+
 bool MutateVisitor::TraverseConstantArrayTypeLoc(
     clang::ConstantArrayTypeLoc constant_array_type_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From 006d6b6300762be8217758aec5f35498729450cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:46 +0000
Subject: [PATCH 18/24] fix: do not mutate the operand of decltype

---
 .../include_private/include/libdredd/mutate_visitor.h  |  4 ++++
 src/libdredd/src/mutate_visitor.cc                     | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 8133420..b6383ce 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -67,6 +67,10 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseTypeOfExprTypeLoc(
       clang::TypeOfExprTypeLoc type_of_expr_type_loc);
 
+  // Overridden to avoid mutating the operand of "decltype", which is not
+  // evaluated.
+  bool TraverseDecltypeTypeLoc(clang::DecltypeTypeLoc decltype_type_loc);
+
   // Overridden to avoid mutating constant array size expressions.
   bool TraverseConstantArrayTypeLoc(
       clang::ConstantArrayTypeLoc constant_array_type_loc);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index d6adf12..5edaf66 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -359,6 +359,16 @@ bool MutateVisitor::TraverseTypeOfExprTypeLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseDecltypeTypeLoc(
+    clang::DecltypeTypeLoc decltype_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)decltype_type_loc;
+  // Only the type of the expression matters.
+  return true;
+}
+
 bool MutateVisitor::TraverseConstantArrayTypeLoc(
     clang::ConstantArrayTypeLoc constant_array_type_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From feec27f4a3df991a64ec21788ad56956cd1e2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:12 +0000
Subject: [PATCH 19/24] fix: do not mutate requires clauses and dependent
 exception specifications

---
 .../include/libdredd/mutate_visitor.h         |  5 +++
 src/libdredd/src/mutate_visitor.cc            | 34 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index b6383ce..3ce4951 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -218,6 +218,11 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // this special case, so that it can be ignored.
   bool IsConversionOfEnumToConstructor(const clang::Expr& expr) const;
 
+  // Determines whether the given statement is (all of) the expression of a
+  // requires clause or of a noexcept specifier.
+  [[nodiscard]] bool IsRequiresClauseOrExceptionSpecification(
+      const clang::Stmt& stmt) const;
+
   // Adds details of a mutation that can be applied, and performs associated
   // bookkeeping.
   void AddMutation(std::unique_ptr<Mutation> mutation);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 5edaf66..448a30d 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -29,6 +29,7 @@
 #include "clang/AST/Decl.h"
 #include "clang/AST/DeclBase.h"
 #include "clang/AST/DeclCXX.h"
+#include "clang/AST/DeclTemplate.h"
 #include "clang/AST/Expr.h"
 #include "clang/AST/ExprCXX.h"
 #include "clang/AST/LambdaCapture.h"
@@ -237,6 +238,13 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate requires clauses and exception specifications, which are
+  // evaluated at compile time. If they depend on template parameters they do
+  // not feature as constant expressions in the AST.
+  if (IsRequiresClauseOrExceptionSpecification(*stmt)) {
+    return true;
+  }
+
   // Do not mutate under 'sizeof' or 'alignof', as this is guaranteed to yield
   // equivalent mutants. Note that we *do* want to mutate above these
   // expressions, hence we ignore children of such expressions, rather than
@@ -909,6 +917,32 @@ bool MutateVisitor::IsConversionOfEnumToConstructor(
   return llvm::dyn_cast<clang::EnumConstantDecl>(decl_ref_expr->getDecl()) !=
          nullptr;
 }
+
+bool MutateVisitor::IsRequiresClauseOrExceptionSpecification(
+    const clang::Stmt& stmt) const {
+  for (const auto& parent :
+       compiler_instance_->getASTContext().getParents(stmt)) {
+    if (const auto* function_decl = parent.get<clang::FunctionDecl>()) {
+      if (function_decl->getTrailingRequiresClause() == &stmt) {
+        return true;
+      }
+    } else if (const auto* template_decl = parent.get<clang::TemplateDecl>()) {
+      if (template_decl->getTemplateParameters()->getRequiresClause() ==
+          &stmt) {
+        return true;
+      }
+    } else if (const auto* type_loc = parent.get<clang::TypeLoc>()) {
+      if (const auto function_type_loc =
+              type_loc->getAs<clang::FunctionProtoTypeLoc>()) {
+        if (function_type_loc.getTypePtr()->getNoexceptExpr() == &stmt) {
+          return true;
+        }
+      }
+    }
+  }
+  return false;
+}
+
 bool MutateVisitor::IsArgumentToArgumentDependentLookupCall(
     const clang::Expr& expr) const {
   const auto* call_expr = GetFirstParentOfType<clang::CallExpr>(
-- 
2.43.0


From 9ef0dcaf46399a7d3c5640d64b63ef76c4c686f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:17 +0000
Subject: [PATCH 20/24] fix: parenthesise operands that use alternative
 operator tokens in query script

---
 scripts/query_mutant_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index df095b8..d196b94 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -51,8 +51,9 @@ def build_mutant_to_node_mapping(json_info: Dict) -> Dict[int, MutantInfo]:
 
 def parenthesise_if_needed(expr_text: str) -> str:
     # Do not parenthesise if it is clearly unnecessary. This regex captures a bunch
-    # of obvious cases, such as identifiers and numeric literals.
-    if re.match(r'^[a-zA-Z0-9_\\.\s]+$', expr_text):
+    # of obvious cases, such as identifiers and numeric literals. White space is
+    # allowed only around a single token, since words may be operators (e.g. "and").
+    if re.match(r'^\s*[a-zA-Z0-9_\\.]+\s*$', expr_text):
         return expr_text
     return f"({expr_text})"
 
-- 
2.43.0


From a0aedac0be946e113e424a0518d2ec1561c9e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 21/24] fix: report the end of ranges whose final token spans
 lines

---
 src/libdredd/src/util.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index f416dc3..7c38448 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -140,9 +140,13 @@ InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
   start_line_ = source_manager.getSpellingLineNumber(source_range.getBegin());
   start_column_ =
       source_manager.getSpellingColumnNumber(source_range.getBegin());
-  end_line_ = source_manager.getSpellingLineNumber(source_range.getEnd());
-  end_column_ = source_manager.getSpellingColumnNumber(source_range.getEnd()) +
-                final_token_length;
+  // The final token may itself span several lines, e.g. if it is a raw string
+  // literal.
+  const clang::SourceLocation end_of_final_token =
+      source_range.getEnd().getLocWithOffset(
+          static_cast<clang::SourceLocation::IntTy>(final_token_length));
+  end_line_ = source_manager.getSpellingLineNumber(end_of_final_token);
+  end_column_ = source_manager.getSpellingColumnNumber(end_of_final_token);
 
   assert((start_line_ < end_line_ || start_column_ < end_column_) &&
          "Bad source range.");
-- 
2.43.0


From e3403eef69229e5bc70a13ab1cc77cd892ab7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:33 +0000
Subject: [PATCH 22/24] fix: do not mutate __real__, __imag__ and __extension__
 as operators

---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 448a30d..301a300 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -460,6 +460,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // The GNU operators __real__, __imag__ and __extension__ can be applied to
+  // arithmetic types, but there are no mutations for them.
+  if (unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Real ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Imag ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Extension) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From 01426d24bcd151fcb28ac5be1d7f1d0efc2fb26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 23/24] fix: do not crash on initializer list elements cast to
 non-basic types

An element of an initializer list that is implicitly converted to, for
example, an atomic type was assumed to be converted to a builtin type.
---
 src/libdredd/src/mutation_replace_expr.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index c36792c..3b0d009 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -603,16 +603,18 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
   if (IsSubjectToImplicitCastInInitializerList(*deparenthesis_expr,
                                                ast_context)) {
     // Add an explicit cast to the result type of the explicit cast.
+    // This is not needed when the implicit cast is not to a basic type, as is
+    // the case for e.g. an atomic or complex type.
     const auto* implicit_cast_expr =
         GetFirstParentOfType<clang::ImplicitCastExpr>(*deparenthesis_expr,
                                                       ast_context);
-    prefix = "static_cast<" +
-             implicit_cast_expr->getType()
-                 ->getAs<clang::BuiltinType>()
-                 ->getName(ast_context.getPrintingPolicy())
-                 .str() +
-             ">(" + prefix;
-    suffix.append(")");
+    if (const auto* cast_type =
+            implicit_cast_expr->getType()->getAs<clang::BuiltinType>()) {
+      prefix = "static_cast<" +
+               cast_type->getName(ast_context.getPrintingPolicy()).str() +
+               ">(" + prefix;
+      suffix.append(")");
+    }
   }
 
   const clang::SourceRange expr_source_range_in_main_file =
-- 
2.43.0


From 86fc420e1e08444d77dffe9a67574931d93ce151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:51 +0000
Subject: [PATCH 24/24] fix: mutate abbreviated function templates

The declaration of an abbreviated function template has no valid start
location, so such functions were wrongly taken to be outside the main file.
---
 src/libdredd/src/mutate_visitor.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 301a300..f35fec6 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -113,8 +113,17 @@ bool MutateVisitor::TraverseDecl(clang::Decl* decl) {
     mutation_tree_root_.TidyUp();
     return result;
   }
-  auto source_range_in_main_file =
-      GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *decl);
+  // An abbreviated function template has no 'template' keyword, so that its
+  // declaration lacks a valid start location; the function that it declares is
+  // considered instead.
+  const auto* function_template_decl =
+      llvm::dyn_cast<clang::FunctionTemplateDecl>(decl);
+  auto source_range_in_main_file = GetSourceRangeInMainFile(
+      compiler_instance_->getPreprocessor(),
+      function_template_decl != nullptr &&
+              function_template_decl->isAbbreviated()
+          ? function_template_decl->getTemplatedDecl()->getSourceRange()
+          : decl->getSourceRange());
   if (source_range_in_main_file.isInvalid()) {
     // This declaration is not wholly contained in the main file, so do not
     // consider it for mutation.
-- 
2.43.0

