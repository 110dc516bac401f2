From 9817b83da57070549fd769f8ecac6f3f1b772805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 01/41] fix: do not rewrite binary operators that come from
 macros

When the operator of a binary expression comes from a macro expansion, the
operator token is not in the main file, so it cannot be replaced by a comma.
The instrumented code did not compile.
---
 src/libdredd/src/mutate_visitor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..cac3b15 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -461,6 +461,17 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // The operator itself is rewritten, so it must occur directly in the main
+  // file: if it comes from a macro then it cannot be rewritten. Logical
+  // operators in C are an exception, as they are left in place.
+  const auto& source_manager = compiler_instance_->getSourceManager();
+  if ((compiler_instance_->getLangOpts().CPlusPlus ||
+       !binary_operator->isLogicalOp()) &&
+      source_manager.getFileID(binary_operator->getOperatorLoc()) !=
+          source_manager.getMainFileID()) {
+    return;
+  }
+
   if (binary_operator->isCommaOp()) {
     // The comma operator is so versatile that it does not make a great deal of
     // sense to try to rewrite it.
-- 
2.43.0


From 78b1833f211d212b338e730e6ab95356e1a2946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:50 +0000
Subject: [PATCH 02/41] fix: parenthesise implicitly converted comma
 expressions

A comma expression that is subject to an implicit conversion (such as the
condition of 'if (a, b)') was passed to a mutator function without
parentheses, so that its operands became separate arguments and the
instrumented code did not compile.
---
 src/libdredd/src/mutation_replace_expr.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..3954a67 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -577,9 +577,11 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
     suffix = ")" + suffix;
   }
 
-  if (const auto* binary_expr = llvm::dyn_cast<clang::BinaryOperator>(expr_)) {
+  if (const auto* binary_expr =
+          llvm::dyn_cast<clang::BinaryOperator>(expr_->IgnoreImplicit())) {
     // The comma operator requires special care to avoid it appearing to
-    // provide multiple parameters for an enclosing function call.
+    // provide multiple parameters for an enclosing function call. This includes
+    // the case where its result is implicitly converted.
     if (binary_expr->isCommaOp()) {
       prefix.append("(");
       suffix = ")" + suffix;
-- 
2.43.0


From 40e4cf7fb07a514e1fd9800b54120bd00eed4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 03/41] fix: measure operator tokens in the source when
 replacing them

The length of the canonical operator string was used as the length of the
text to replace, which is wrong for alternative tokens (and, or, not, compl,
bitand, xor, and_eq, ...) and for operators that contain a line continuation.
The instrumented code did not compile.
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 11 +++++++----
 src/libdredd/src/mutation_replace_unary_operator.cc  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..4630b45 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -653,12 +654,14 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // replacing the text for the binary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Replace the operator symbol with ","
+  // Replace the operator symbol with ",". The symbol is measured in the source
+  // code as it may be spelled differently from the usual operator string, e.g.
+  // when "and" is used instead of "&&".
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       ",");
 
   // These record the text that should be inserted before and after the LHS and
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..afff919 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -24,6 +24,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -408,12 +409,14 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // replacing the text for the unary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Remove the operator symbol.
+  // Remove the operator symbol. The symbol is measured in the source code as it
+  // may be spelled differently from the usual operator string, e.g. when "not"
+  // is used instead of "!".
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       "");
 
   // These record the text that should be inserted before and after the operand.
-- 
2.43.0


From 3ccaf93ff1d1f4c884f6963058522de79ea265de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 04/41] fix: separate inserted identifiers from a preceding
 identifier character

A mutator function call or an 'if' that is inserted right after a keyword or
macro name ('return++x', 'else++x;', 'EMPTY(x) = 3;') was joined to it, so
that the instrumented code did not compile. Only the replacement of whole
expressions catered for this.
---
 src/libdredd/include/libdredd/util.h          |  8 +++++
 src/libdredd/src/mutation_remove_stmt.cc      | 10 ++++--
 .../src/mutation_replace_binary_operator.cc   | 34 +++++++++++++++----
 src/libdredd/src/mutation_replace_expr.cc     | 23 +------------
 .../src/mutation_replace_unary_operator.cc    |  8 ++++-
 src/libdredd/src/util.cc                      | 19 +++++++++++
 6 files changed, 70 insertions(+), 32 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..97a664c 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -22,6 +22,7 @@
 #include "clang/AST/ParentMapContext.h"
 #include "clang/AST/Stmt.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 
@@ -61,6 +62,13 @@ template <typename HasSourceRange>
   return GetSourceRangeInMainFile(preprocessor, ast_node.getSourceRange());
 }
 
+// Returns true if and only if |source_range| is immediately preceded by a
+// character that could belong to an identifier. In this case a space is needed
+// before any identifier that is inserted at the start of |source_range|.
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::SourceManager& source_manager,
+    const clang::SourceRange& source_range);
+
 // Introduced to work around what seems like a bug in Clang, where a source
 // range can end earlier than it starts. See "structured_binding.cc" under
 // single file tests.
diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 7a5be63..c18f593 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -108,17 +108,23 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
                             " " + stringstream.str() + "*/";
   }
 
+  const std::string separator =
+      PrecedingCharacterIsIdentifierCharacter(ast_context.getSourceManager(),
+                                              source_range.getAsRange())
+          ? " "
+          : "";
+
   if (options.GetOnlyTrackMutantCoverage()) {
     const bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
-        "__dredd_record_covered_mutants" + ast_node_type_comment + "(" +
+        separator + "__dredd_record_covered_mutants" + ast_node_type_comment + "(" +
             std::to_string(local_mutation_id) + ", 1); ");
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   } else {
     bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
-        "if (!__dredd_enabled_mutation" + ast_node_type_comment + "(" +
+        separator + "if (!__dredd_enabled_mutation" + ast_node_type_comment + "(" +
             std::to_string(local_mutation_id) + ")) { ");
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 4630b45..2eab63c 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -666,7 +666,12 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
 
   // These record the text that should be inserted before and after the LHS and
   // RHS operands.
-  std::string lhs_prefix = new_function_name;
+  std::string lhs_prefix;
+  if (PrecedingCharacterIsIdentifierCharacter(ast_context.getSourceManager(),
+                                              lhs_source_range_in_main_file)) {
+    lhs_prefix += " ";
+  }
+  lhs_prefix += new_function_name;
   if (show_ast_node_types) {
     std::stringstream stringstream;
     stringstream << binary_operator_;
@@ -750,8 +755,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       auto source_range_lhs =
           GetSourceRangeInMainFile(preprocessor, *binary_operator_->getLHS());
       const std::string lhs_function_name = new_function_prefix + "_lhs";
-      rewriter.InsertTextBefore(source_range_lhs.getBegin(),
-                                lhs_function_name + "(");
+      rewriter.InsertTextBefore(
+          source_range_lhs.getBegin(),
+          (PrecedingCharacterIsIdentifierCharacter(
+               preprocessor.getSourceManager(), source_range_lhs)
+               ? " "
+               : "") +
+              lhs_function_name + "(");
       rewriter.InsertTextAfterToken(
           source_range_lhs.getEnd(),
           ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
@@ -792,8 +802,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       auto source_range_rhs =
           GetSourceRangeInMainFile(preprocessor, *binary_operator_->getRHS());
       const std::string rhs_function_name = new_function_prefix + "_rhs";
-      rewriter.InsertTextBefore(source_range_rhs.getBegin(),
-                                rhs_function_name + "(");
+      rewriter.InsertTextBefore(
+          source_range_rhs.getBegin(),
+          (PrecedingCharacterIsIdentifierCharacter(
+               preprocessor.getSourceManager(), source_range_rhs)
+               ? " "
+               : "") +
+              rhs_function_name + "(");
       rewriter.InsertTextAfterToken(
           source_range_rhs.getEnd(),
           ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
@@ -835,8 +850,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
     auto source_range_binary_operator =
         GetSourceRangeInMainFile(preprocessor, *binary_operator_);
     const std::string outer_function_name = new_function_prefix + "_outer";
-    rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
-                              outer_function_name + "(");
+    rewriter.InsertTextBefore(
+        source_range_binary_operator.getBegin(),
+        (PrecedingCharacterIsIdentifierCharacter(
+             preprocessor.getSourceManager(), source_range_binary_operator)
+             ? " "
+             : "") +
+            outer_function_name + "(");
     rewriter.InsertTextAfterToken(
         source_range_binary_operator.getEnd(),
         ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 3954a67..8d15263 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -15,7 +15,6 @@
 #include "libdredd/mutation_replace_expr.h"
 
 #include <cassert>
-#include <cctype>
 #include <sstream>
 
 #include "clang/AST/APValue.h"
@@ -37,26 +36,6 @@
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 
-namespace {
-bool PrecedingCharacterIsIdentifierCharacter(
-    const clang::ASTContext& ast_context,
-    const clang::SourceRange& source_range) {
-  bool is_invalid = false;
-  const char* pointer_to_character_before_location =
-      ast_context.getSourceManager().getCharacterData(
-          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
-  if (is_invalid) {
-    return false;
-  }
-  // There is a previous character. Check whether it is alphanumeric, or an
-  // underscore.
-  const char character_before_location =
-      pointer_to_character_before_location[0];
-  return character_before_location == '_' ||
-         static_cast<bool>(std::isalnum(character_before_location));
-}
-}  // namespace
-
 namespace dredd {
 dredd::MutationReplaceExpr::MutationReplaceExpr(
     const clang::Expr& expr, const clang::Preprocessor& preprocessor,
@@ -626,7 +605,7 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
   // expression being mutated comes right after a macro. If this happens, then
   // unless a space is added, the function name gets conjoined onto the macro
   // name, leading to invalid code.
-  if (PrecedingCharacterIsIdentifierCharacter(ast_context,
+  if (PrecedingCharacterIsIdentifierCharacter(ast_context.getSourceManager(),
                                               expr_source_range_in_main_file)) {
     prefix = " " + prefix;
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index afff919..8adade3 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -420,7 +420,13 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
       "");
 
   // These record the text that should be inserted before and after the operand.
-  std::string prefix = new_function_name;
+  std::string prefix;
+  if (PrecedingCharacterIsIdentifierCharacter(
+          ast_context.getSourceManager(),
+          unary_operator_source_range_in_main_file)) {
+    prefix += " ";
+  }
+  prefix += new_function_name;
   if (options.GetShowAstNodeTypes()) {
     std::stringstream stringstream;
     stringstream << unary_operator_;
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..21c9298 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cctype>
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
@@ -213,4 +214,22 @@ bool IsCxx11ConstantExpr(const clang::Expr& expr,
   return {begin_loc_in_main_file, end_loc_in_main_file};
 }
 
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::SourceManager& source_manager,
+    const clang::SourceRange& source_range) {
+  bool is_invalid = false;
+  const char* pointer_to_character_before_location =
+      source_manager.getCharacterData(
+          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
+  if (is_invalid) {
+    return false;
+  }
+  // There is a previous character. Check whether it is alphanumeric, or an
+  // underscore.
+  const char character_before_location =
+      pointer_to_character_before_location[0];
+  return character_before_location == '_' ||
+         static_cast<bool>(std::isalnum(character_before_location));
+}
+
 }  // namespace dredd
-- 
2.43.0


From e868e8e0edf6c124668a6531dff581be7026ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:23 +0000
Subject: [PATCH 05/41] fix: do not take the address of register variables in C

Mutating assignments to, increments of and uses of variables declared
'register' led to code that takes their address, which does not compile.
---
 src/libdredd/include/libdredd/util.h      |  5 ++++
 src/libdredd/src/mutate_visitor.cc        | 16 ++++++++++++
 src/libdredd/src/mutation_replace_expr.cc |  4 +++
 src/libdredd/src/util.cc                  | 31 +++++++++++++++++++++++
 4 files changed, 56 insertions(+)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index 97a664c..1bc84a7 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -99,6 +99,11 @@ bool EvaluateAsFloat(const clang::Expr& expr,
 bool IsCxx11ConstantExpr(const clang::Expr& expr,
                          const clang::ASTContext& ast_context);
 
+// Returns true if and only if |expr| is an l-value that refers to a variable
+// declared with the 'register' specifier, or to part of such a variable. In C it
+// is not allowed to take the address of such an l-value.
+bool RefersToRegisterVariable(const clang::Expr& expr);
+
 // It is often necessary to ask whether a given statement (which includes
 // expressions) has a parent of a given type. This helper returns nullptr if
 // the given statement has no parent of the template parameter type, and
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index cac3b15..84c6ed5 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -395,6 +395,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // Similarly, it is not possible to take the address of register variables in
+  // C.
+  if (unary_operator->isIncrementDecrementOp() &&
+      !compiler_instance_->getLangOpts().CPlusPlus &&
+      RefersToRegisterVariable(*unary_operator->getSubExpr())) {
+    return;
+  }
+
   if (options_->GetOptimiseMutations()) {
     if (unary_operator->getOpcode() == clang::UO_Minus &&
         (MutationReplaceExpr::ExprIsEquivalentToInt(
@@ -461,6 +469,14 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // Similarly, it is not possible to take the address of register variables in
+  // C.
+  if (binary_operator->isAssignmentOp() &&
+      !compiler_instance_->getLangOpts().CPlusPlus &&
+      RefersToRegisterVariable(*binary_operator->getLHS())) {
+    return;
+  }
+
   // The operator itself is rewritten, so it must occur directly in the main
   // file: if it comes from a macro then it cannot be rewritten. Logical
   // operators in C are an exception, as they are left in place.
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 8d15263..6559743 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -686,6 +686,10 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   if (expr.refersToBitField()) {
     return false;
   }
+  // Similarly, the address of register variables cannot be taken in C.
+  if (!ast_context.getLangOpts().CPlusPlus && RefersToRegisterVariable(expr)) {
+    return false;
+  }
   // The following checks that `expr` is the child of an ImplicitCastExpr that
   // yields an r-value.
   const auto* implicit_cast_expr =
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 21c9298..14d9745 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -20,13 +20,16 @@
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Decl.h"
 #include "clang/AST/Expr.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/SourceManager.h"
+#include "clang/Basic/Specifiers.h"
 #include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -232,4 +235,32 @@ bool PrecedingCharacterIsIdentifierCharacter(
          static_cast<bool>(std::isalnum(character_before_location));
 }
 
+bool RefersToRegisterVariable(const clang::Expr& expr) {
+  const clang::Expr* current = expr.IgnoreParenImpCasts();
+  while (true) {
+    if (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(current)) {
+      if (member_expr->isArrow()) {
+        return false;
+      }
+      current = member_expr->getBase()->IgnoreParenImpCasts();
+    } else if (const auto* subscript_expr =
+                   llvm::dyn_cast<clang::ArraySubscriptExpr>(current)) {
+      current = subscript_expr->getBase()->IgnoreParenImpCasts();
+      if (!current->getType()->isArrayType()) {
+        return false;
+      }
+    } else {
+      break;
+    }
+  }
+  const auto* decl_ref_expr = llvm::dyn_cast<clang::DeclRefExpr>(current);
+  if (decl_ref_expr == nullptr) {
+    return false;
+  }
+  const auto* var_decl =
+      llvm::dyn_cast<clang::VarDecl>(decl_ref_expr->getDecl());
+  return var_decl != nullptr &&
+         var_decl->getStorageClass() == clang::SC_Register;
+}
+
 }  // namespace dredd
-- 
2.43.0


From 07234e4df202c50abc9db5043cde49727e21f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:47 +0000
Subject: [PATCH 06/41] fix: terminate wrapped statements whose semicolon comes
 from a macro

When a statement is followed by a macro that expands to its semicolon, the
statement was wrapped in a block without a semicolon, so that the
instrumented code did not compile.
---
 src/libdredd/src/mutation_remove_stmt.cc | 47 +++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index c18f593..6d7ead2 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -20,7 +20,9 @@
 #include <unordered_set>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Expr.h"
 #include "clang/AST/Stmt.h"
+#include "clang/AST/StmtCXX.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/TokenKinds.h"
 #include "clang/Lex/Lexer.h"
@@ -30,9 +32,46 @@
 #include "clang/Tooling/Transformer/SourceCode.h"
 #include "libdredd/options.h"
 #include "libdredd/util.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
+namespace {
+
+// Returns true if and only if the grammar requires |stmt| to end with a
+// semicolon.
+bool RequiresTerminatingSemicolon(const clang::Stmt& stmt) {
+  if (const auto* if_stmt = llvm::dyn_cast<clang::IfStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(if_stmt->getElse() == nullptr
+                                            ? *if_stmt->getThen()
+                                            : *if_stmt->getElse());
+  }
+  if (const auto* for_stmt = llvm::dyn_cast<clang::ForStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*for_stmt->getBody());
+  }
+  if (const auto* for_range_stmt =
+          llvm::dyn_cast<clang::CXXForRangeStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*for_range_stmt->getBody());
+  }
+  if (const auto* while_stmt = llvm::dyn_cast<clang::WhileStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*while_stmt->getBody());
+  }
+  if (const auto* switch_stmt = llvm::dyn_cast<clang::SwitchStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*switch_stmt->getBody());
+  }
+  if (const auto* switch_case = llvm::dyn_cast<clang::SwitchCase>(&stmt)) {
+    return RequiresTerminatingSemicolon(*switch_case->getSubStmt());
+  }
+  if (const auto* label_stmt = llvm::dyn_cast<clang::LabelStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*label_stmt->getSubStmt());
+  }
+  return llvm::isa<clang::Expr, clang::ReturnStmt, clang::BreakStmt,
+                   clang::ContinueStmt, clang::GotoStmt,
+                   clang::IndirectGotoStmt, clang::DoStmt>(stmt);
+}
+
+}  // namespace
+
 MutationRemoveStmt::MutationRemoveStmt(const clang::Stmt& stmt,
                                        const clang::Preprocessor& preprocessor,
                                        const clang::ASTContext& ast_context)
@@ -128,7 +167,9 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
             std::to_string(local_mutation_id) + ")) { ");
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
-    if (!is_extended_with_semi && IsNextTokenHash(source_range, preprocessor)) {
+    if (!is_extended_with_semi &&
+        (IsNextTokenHash(source_range, preprocessor) ||
+         RequiresTerminatingSemicolon(*stmt_))) {
       // If we did not extend the range to capture an immediately-following
       // semicolon, then we could have a problem if the statement is separated
       // from its semicolon by a preprocessor directive. For example:
@@ -141,7 +182,9 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // If we find a hash token - indicative of a preprocessor directive -
       // having not extended the range with a semicolon, we conservatively add
       // a semicolon to ensure that the code in the conditional that is
-      // introduced is well-formed.
+      // introduced is well-formed. This is also needed if a statement that must
+      // be terminated by a semicolon is not followed by one, which is the case
+      // if the semicolon comes from a macro.
       to_insert = "; " + to_insert;
     }
     if (is_extended_with_comment && !is_extended_with_semi) {
-- 
2.43.0


From c8709ecb0a44d1e4bbb50d37df217366018e4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:05 +0000
Subject: [PATCH 07/41] fix: do not mutate references obtained from temporary
 objects via member calls

An l-value returned by a member function that is called on a temporary may
refer to storage of the temporary. Mutating it wraps the call in a lambda, so
that the reference dangles once the lambda returns. The object that a member
function is called on is not among the arguments of the call, and was not
considered.
---
 src/libdredd/src/mutate_visitor.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 84c6ed5..7707a10 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -881,6 +881,22 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
           return true;
         }
       }
+      // The object that a member function is called on is not included in the
+      // arguments of the call.
+      if (const auto* member_call_expr =
+              llvm::dyn_cast<clang::CXXMemberCallExpr>(call_expr)) {
+        const clang::Expr* object = member_call_expr->getImplicitObjectArgument();
+        // |IgnoreParens| and |IgnoreImpCasts| do not skip over materialized
+        // temporaries.
+        while (object != nullptr &&
+               object != object->IgnoreParens()->IgnoreImpCasts()) {
+          object = object->IgnoreParens()->IgnoreImpCasts();
+        }
+        if (object != nullptr &&
+            MayDependOnLifetimeOfMaterializedTemporaryStorage(*object)) {
+          return true;
+        }
+      }
     }
     return false;
   }
-- 
2.43.0


From 892668e0edb926167e0b96f3eedc92cf3a8b003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:51 +0000
Subject: [PATCH 08/41] fix: do not mutate braced initializer lists under
 implicit nodes

A braced initializer list that is wrapped in an ExprWithCleanups node was
treated as an expression, so that the braces were passed to a mutator
function and the instrumented code did not compile.
---
 src/libdredd/src/mutate_visitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 7707a10..e813f6b 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -526,8 +526,9 @@ void MutateVisitor::HandleExpr(clang::Expr* expr) {
     return;
   }
 
-  // It is incorrect to attempt to mutate braced initializer lists.
-  if (llvm::dyn_cast<clang::InitListExpr>(expr) != nullptr) {
+  // It is incorrect to attempt to mutate braced initializer lists, including
+  // those that are wrapped in implicit nodes such as ExprWithCleanups.
+  if (llvm::dyn_cast<clang::InitListExpr>(expr->IgnoreImplicit()) != nullptr) {
     return;
   }
 
-- 
2.43.0


From 262d5473d6ef0b9fb723da474ffa937713a465f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:41 +0000
Subject: [PATCH 09/41] fix: cast mutated values in designated initializers

A constant that is implicitly converted in an initializer list is explicitly
cast when mutated, since a narrowing conversion is only allowed for constants.
This was not done for designated initializers, so that the instrumented code
did not compile with --no-mutation-opts.
---
 src/libdredd/src/mutation_replace_expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 6559743..a019092 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -884,7 +884,8 @@ bool MutationReplaceExpr::IsSubjectToImplicitCastInInitializerList(
   for (const auto& parent : ast_context.getParents<clang::Expr>(expr)) {
     if (parent.get<clang::ImplicitCastExpr>() != nullptr) {
       found_implicit_cast_parent = true;
-    } else if (parent.get<clang::InitListExpr>() != nullptr) {
+    } else if (parent.get<clang::InitListExpr>() != nullptr ||
+               parent.get<clang::DesignatedInitExpr>() != nullptr) {
       found_initializer_list_parent = true;
     }
   }
-- 
2.43.0


From a8ab3894ef9b82ed49d73c61809d93458dd03053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:44 +0000
Subject: [PATCH 10/41] fix: instrument adjacent statements that have no white
 space between them

The closing brace of the conditional that wraps a statement was inserted at
the position where an immediately following statement starts, so that text
inserted at the start of the next statement (as in 'x=1;y=2;') ended up
before the closing brace, and the instrumented code did not compile.
---
 src/libdredd/src/mutation_remove_stmt.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 6d7ead2..59e8f78 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -196,8 +196,24 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // line, but this would make mutated files harder to read.
       to_insert = "\n" + to_insert;
     }
-    rewriter_result =
-        rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    if (is_extended_with_semi || is_extended_with_comment ||
+        !RequiresTerminatingSemicolon(*stmt_)) {
+      // The final token is a semicolon, a comment or a closing brace. Make the
+      // text part of this token, instead of inserting it after the token:
+      // otherwise, if the next statement immediately follows the token with no
+      // intervening white space, then the text that is inserted at the start of
+      // the next statement would end up before this text.
+      const std::string final_token =
+          clang::Lexer::getSourceText(
+              clang::CharSourceRange::getTokenRange(source_range.getEnd()),
+              ast_context.getSourceManager(), ast_context.getLangOpts())
+              .str();
+      rewriter_result = rewriter.ReplaceText(
+          source_range.getEnd(), final_token.size(), final_token + to_insert);
+    } else {
+      rewriter_result =
+          rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    }
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   }
-- 
2.43.0


From 3355ce0f0f7d32f425f6df21d3d6b1a7a93dbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 11/41] fix: compare columns only on the same line when
 checking source ranges

A source range that ends on an earlier line than it starts on was considered
consistent if its end column is large enough, which affects structured
bindings whose initializer is on a later line. The instrumented code did not
compile.
---
 src/libdredd/src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 14d9745..5606b8f 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -119,7 +119,8 @@ bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
       source_manager.getSpellingColumnNumber(source_range.getEnd()) +
       final_token_length;
 
-  return start_line < end_line || start_column < end_column;
+  return start_line < end_line ||
+         (start_line == end_line && start_column < end_column);
 }
 
 InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
-- 
2.43.0


From 7a0ec4a699a6afc0a45538b46bce39ea1f3e0625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:22 +0000
Subject: [PATCH 12/41] fix: do not take the address of vector elements

---
 src/libdredd/src/mutate_visitor.cc        | 6 ++++--
 src/libdredd/src/mutation_replace_expr.cc | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index e813f6b..85f371d 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -391,7 +391,8 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   // this mutation of these operators when applied to bit-fields is not
   // supported.
   if (unary_operator->isIncrementDecrementOp() &&
-      unary_operator->getSubExpr()->refersToBitField()) {
+      (unary_operator->getSubExpr()->refersToBitField() ||
+       unary_operator->getSubExpr()->refersToVectorElement())) {
     return;
   }
 
@@ -465,7 +466,8 @@ void MutateVisitor::HandleBinaryOperator(
   // bit-fields by reference, this mutation of these operators when applied to a
   // bit-field first argument is not supported.
   if (binary_operator->isAssignmentOp() &&
-      binary_operator->getLHS()->refersToBitField()) {
+      (binary_operator->getLHS()->refersToBitField() ||
+       binary_operator->getLHS()->refersToVectorElement())) {
     return;
   }
 
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index a019092..9bbc0a6 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -682,8 +682,8 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   }
   // Bit-fields cannot be passed by reference, and mutator functions for
   // l-values must be passed by reference, hence bit-fields are not supported
-  // in this context.
-  if (expr.refersToBitField()) {
+  // in this context. The same applies to elements of vectors.
+  if (expr.refersToBitField() || expr.refersToVectorElement()) {
     return false;
   }
   // Similarly, the address of register variables cannot be taken in C.
-- 
2.43.0


From 95d3496af97a4c2d782be06bccc777e2a52c632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 13/41] fix: do not record mutants at sites that have none

---
 src/libdredd/src/mutation_replace_binary_operator.cc | 4 +++-
 src/libdredd/src/mutation_replace_expr.cc            | 4 +++-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 2eab63c..b257495 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -502,7 +502,9 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
                               mutation_id, new_function, mutation_id_offset,
                               protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If there are no mutants then the mutation id is that of an unrelated
+  // mutant, which must not be regarded as having been recorded.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 9bbc0a6..7cab124 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -475,7 +475,9 @@ std::string MutationReplaceExpr::GenerateMutatorFunction(
       ast_context, optimise_mutations, only_track_mutant_coverage, mutation_id,
       new_function, mutation_id_offset, protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If there are no mutants then the mutation id is that of an unrelated
+  // mutant, which must not be regarded as having been recorded.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 8adade3..860b792 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -230,7 +230,9 @@ std::string MutationReplaceUnaryOperator::GenerateMutatorFunction(
       only_track_mutant_coverage, mutation_id, new_function, mutation_id_offset,
       protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If there are no mutants then the mutation id is that of an unrelated
+  // mutant, which must not be regarded as having been recorded.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
-- 
2.43.0


From 608519ca91dfbe4fcc27df0325be367329655e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:45 +0000
Subject: [PATCH 14/41] fix: do not cut through multi-byte characters in
 snippets

---
 src/libdredd/src/util.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 5606b8f..4dc5915 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -158,14 +158,27 @@ InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
   if (length <= kMinSnippedLength) {
     snippet_ = buffer_data.substr(start_loc_decomposed.second, length).str();
   } else {
+    // Avoid cutting through a UTF-8 encoded character, as a snippet must be
+    // valid UTF-8.
+    auto is_continuation_byte = [&buffer_data](unsigned int offset) -> bool {
+      return (static_cast<unsigned char>(buffer_data[offset]) & 0xC0U) == 0x80U;
+    };
+    unsigned int prefix_end =
+        start_loc_decomposed.second + kSnippetLengthEachSide;
+    while (prefix_end > start_loc_decomposed.second &&
+           is_continuation_byte(prefix_end)) {
+      prefix_end--;
+    }
+    unsigned int suffix_start =
+        start_loc_decomposed.second + length - kSnippetLengthEachSide;
+    while (suffix_start < start_loc_decomposed.second + length &&
+           is_continuation_byte(suffix_start)) {
+      suffix_start++;
+    }
     snippet_ =
-        buffer_data.substr(start_loc_decomposed.second, kSnippetLengthEachSide)
-            .str() +
+        buffer_data.slice(start_loc_decomposed.second, prefix_end).str() +
         kSnipText +
-        buffer_data
-            .substr(
-                start_loc_decomposed.second + length - kSnippetLengthEachSide,
-                kSnippetLengthEachSide)
+        buffer_data.slice(suffix_start, start_loc_decomposed.second + length)
             .str();
   }
 }
-- 
2.43.0


From a7f995d3c77546243dce9736b52c1c66669eadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 15/41] fix: keep removal of unary minus from unsigned
 expressions when optimising

---
 src/libdredd/src/mutation_replace_unary_operator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 860b792..3786914 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -540,8 +540,10 @@ MutationReplaceUnaryOperator::ClangOperatorKindToProtobufOperatorKind(
 
 bool MutationReplaceUnaryOperator::IsOperatorSelfInverse() const {
   switch (unary_operator_->getOpcode()) {
-    case clang::UO_LNot:
     case clang::UO_Minus:
+      // The '-' operator is not inserted before unsigned expressions.
+      return !unary_operator_->getType()->isUnsignedIntegerType();
+    case clang::UO_LNot:
     case clang::UO_Not:
       return true;
     default:
-- 
2.43.0


From d6cba07cc0e226bc680e2a1640842364e6652e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:33 +0000
Subject: [PATCH 16/41] fix: recognise a repeated file whatever the spelling of
 its path

---
 .../src/new_mutate_frontend_action_factory.cc | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..939e2ed 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,10 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/FileSystem.h"
+#include "llvm/Support/Path.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -55,7 +58,8 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     assert(input_exists && "No current file.");
 
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    const std::string canonical_path = GetCanonicalPath(getCurrentFile());
+    if (processed_files_->contains(canonical_path)) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -63,11 +67,25 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
 
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
-    processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(canonical_path);
     return true;
   }
 
  private:
+  // Yields a path that identifies the given file regardless of how its
+  // directory was spelled on the command line.
+  static std::string GetCanonicalPath(llvm::StringRef file) {
+    llvm::SmallString<256> absolute(file);
+    llvm::sys::fs::make_absolute(absolute);
+    llvm::SmallString<256> result;
+    if (llvm::sys::fs::real_path(llvm::sys::path::parent_path(absolute),
+                                 result)) {
+      return file.str();
+    }
+    llvm::sys::path::append(result, llvm::sys::path::filename(absolute));
+    return result.str().str();
+  }
+
   const Options* options_;
   int* mutation_id_;
   std::optional<protobufs::MutationInfo>* mutation_info_;
-- 
2.43.0


From 1cc741c0a56681f169369efba21362977fc59eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 17/41] fix: read source text by byte columns in the query
 script

---
 scripts/query_mutant_info.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index badea50..2b73a6d 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -69,15 +69,18 @@ def get_text_for_source_range(start_location: Dict[str, int],
     end_column = end_location['column']
     range_description = f"{filename_without_prefix}, {start_line}:{start_column}--{end_line}:{end_column}"
 
-    lines = open(original_source_code_filename, 'r').readlines()
+    # Columns count bytes, so the text must be sliced before it is decoded.
+    with open(original_source_code_filename, 'rb') as source_file:
+        lines = source_file.read().splitlines()
     if start_line == end_line:
-        return True, range_description, "", lines[start_line - 1][start_column - 1:end_column - 1]
+        source_range_text = lines[start_line - 1][start_column - 1:end_column - 1]
+        return True, range_description, "", source_range_text.decode('utf-8', errors='replace')
     blank_prefix: str = " " * (start_column - 1)
-    source_range_text: str = lines[start_line - 1][start_column - 1:]
+    source_range_text = lines[start_line - 1][start_column - 1:] + b'\n'
     for i in range(start_line, end_line - 1):
-        source_range_text += lines[i]
+        source_range_text += lines[i] + b'\n'
     source_range_text += lines[end_line - 1][0:end_column - 1]
-    return False, range_description, blank_prefix, source_range_text
+    return False, range_description, blank_prefix, source_range_text.decode('utf-8', errors='replace')
 
 
 def show_info_for_replace_expr(mutant_info: MutantInfo,
-- 
2.43.0


From 0c682e2f9bdafbb37826562c549d76d6bdb67d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:52 +0000
Subject: [PATCH 18/41] fix: parenthesise operands with alternative operator
 tokens in the query script

---
 scripts/query_mutant_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index 2b73a6d..65d502c 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -52,7 +52,7 @@ def build_mutant_to_node_mapping(json_info: Dict) -> Dict[int, MutantInfo]:
 def parenthesise_if_needed(expr_text: str) -> str:
     # Do not parenthesise if it is clearly unnecessary. This regex captures a bunch
     # of obvious cases, such as identifiers and numeric literals.
-    if re.match(r'^[a-zA-Z0-9_\\.\s]+$', expr_text):
+    if re.match(r'^[a-zA-Z0-9_\\.]+$', expr_text):
         return expr_text
     return f"({expr_text})"
 
-- 
2.43.0


From d5c28320751f10c5e9845bd00cd6f58431d1b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 19/41] fix: report the end of a range whose last token spans
 lines

---
 src/libdredd/src/util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 4dc5915..67736f3 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -141,9 +141,11 @@ InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
   start_line_ = source_manager.getSpellingLineNumber(source_range.getBegin());
   start_column_ =
       source_manager.getSpellingColumnNumber(source_range.getBegin());
-  end_line_ = source_manager.getSpellingLineNumber(source_range.getEnd());
-  end_column_ = source_manager.getSpellingColumnNumber(source_range.getEnd()) +
-                final_token_length;
+  // The final token may itself continue on further lines.
+  const clang::SourceLocation end_loc = source_range.getEnd().getLocWithOffset(
+      static_cast<int>(final_token_length));
+  end_line_ = source_manager.getSpellingLineNumber(end_loc);
+  end_column_ = source_manager.getSpellingColumnNumber(end_loc);
 
   assert((start_line_ < end_line_ || start_column_ < end_column_) &&
          "Bad source range.");
-- 
2.43.0


From a095fe83d9b087bb99ad01ea25a896da212a99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 20/41] fix: keep the sign of negative constant template
 arguments

An argument such as -3 was rewritten to 4294967293, which is not a valid
argument for a parameter of type int.
---
 .../include/libdredd/mutate_ast_consumer.h    |  5 ++--
 src/libdredd/src/mutate_ast_consumer.cc       | 25 +++++++++----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..4ebd4f5 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -30,6 +30,7 @@
 #include "libdredd/mutation_tree_node.h"
 #include "libdredd/options.h"
 #include "libdredd/protobufs/dredd_protobufs.h"
+#include "llvm/ADT/APSInt.h"
 
 namespace dredd {
 
@@ -65,8 +66,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
 
   void RewriteExpressionsInMainFile();
 
-  bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+  bool RewriteExpressionInMainFileToIntegerConstant(
+      const clang::Expr* expr, const llvm::APSInt& integer_constant);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..8f6e9e1 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -39,6 +39,7 @@
 #include "libdredd/util.h"
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
@@ -197,12 +198,11 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
             typeloc.getUnqualifiedLoc().getAs<clang::ConstantArrayTypeLoc>()) {
       RewriteExpressionInMainFileToIntegerConstant(
           constant_array_typeloc.getSizeExpr(),
-          llvm::dyn_cast<clang::ConstantArrayType>(
-              constant_array_typeloc.getType()
-                  ->getAsArrayTypeUnsafe()
-                  ->getAsArrayTypeUnsafe())
-              ->getSize()
-              .getLimitedValue());
+          llvm::APSInt(llvm::dyn_cast<clang::ConstantArrayType>(
+                           constant_array_typeloc.getType()
+                               ->getAsArrayTypeUnsafe()
+                               ->getAsArrayTypeUnsafe())
+                           ->getSize()));
       typeloc = constant_array_typeloc.getElementLoc();
     }
   }
@@ -213,7 +213,7 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
   for (const auto& static_assert_decl :
        visitor_->GetStaticAssertionsToRewrite()) {
     RewriteExpressionInMainFileToIntegerConstant(
-        static_assert_decl->getAssertExpr(), 1);
+        static_assert_decl->getAssertExpr(), llvm::APSInt::get(1));
   }
 
   // Rewrite the constant integer arguments of builtin functions and templates.
@@ -228,23 +228,22 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
       // Argument is an integer constant
-      RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+      RewriteExpressionInMainFileToIntegerConstant(constant_argument_expresion,
+                                                   *integer_const_expr);
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+    const clang::Expr* expr, const llvm::APSInt& integer_constant) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    std::stringstream stringstream;
-    stringstream << integer_constant;
-    rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
+    rewriter_.ReplaceText(source_range_in_main_file,
+                          llvm::toString(integer_constant, 10));
     return true;
   }
   return false;
-- 
2.43.0


From 7c7b9ea97eed53b53bd054284137e5d103f62471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 21/41] fix: keep the type of constant template arguments where
 it matters

An integer literal must not stand in for an argument of enumeration type, nor
for a non-int argument of a parameter whose type is deduced from it.
---
 .../include/libdredd/mutate_ast_consumer.h    |  3 +-
 .../include/libdredd/mutate_visitor.h         | 17 ++++++++
 src/libdredd/src/mutate_ast_consumer.cc       | 27 ++++++++++---
 src/libdredd/src/mutate_visitor.cc            | 39 +++++++++++++++++--
 4 files changed, 77 insertions(+), 9 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 4ebd4f5..f0e4d42 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -67,7 +67,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
   void RewriteExpressionsInMainFile();
 
   bool RewriteExpressionInMainFileToIntegerConstant(
-      const clang::Expr* expr, const llvm::APSInt& integer_constant);
+      const clang::Expr* expr, const llvm::APSInt& integer_constant,
+      bool preserve_type = false);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 3f0e50a..651c47f 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -16,6 +16,7 @@
 #define LIBDREDD_MUTATE_VISITOR_H
 
 #include <cassert>
+#include <cstddef>
 #include <memory>
 #include <optional>
 #include <set>
@@ -138,6 +139,13 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
     return constant_arguments_to_rewrite_;
   }
 
+  // Determines whether the type of a constant argument that needs to be
+  // rewritten matters, because the type of the parameter is deduced from it.
+  [[nodiscard]] bool IsConstantArgumentWithDeducedType(
+      const clang::Expr& expr) const {
+    return constant_arguments_with_deduced_type_.contains(&expr);
+  }
+
  private:
   // Helper class that uses the RAII pattern to support pushing a new mutation
   // tree node on to the stack of mutation tree nodes used during visitation,
@@ -243,6 +251,12 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   static bool MayDependOnLifetimeOfMaterializedTemporaryStorage(
       const clang::Expr& expr);
 
+  // Determines whether the template argument with the given index is for a
+  // non-type parameter whose type is deduced from the argument.
+  static bool IsPlaceholderTemplateParameter(
+      const clang::TemplateSpecializationType& template_specialization_type,
+      size_t index);
+
   // Recursively saves constant template arguments that need to be rewritten
   // later to avoid compilation errors.
   void SaveConstantTemplateArgumentForRewrite(
@@ -307,6 +321,9 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // so that their expressions can be rewritten with the integers to which they
   // evaluate.
   std::vector<const clang::Expr*> constant_arguments_to_rewrite_;
+
+  // The constant arguments for template parameters of deduced type.
+  std::unordered_set<const clang::Expr*> constant_arguments_with_deduced_type_;
 };
 
 }  // namespace dredd
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 8f6e9e1..a3704ad 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -227,23 +227,40 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
+      if (integer_const_expr->isSigned() &&
+          integer_const_expr->isMinSignedValue()) {
+        // The most negative value may not be expressible as a literal.
+        continue;
+      }
       // Argument is an integer constant
-      RewriteExpressionInMainFileToIntegerConstant(constant_argument_expresion,
-                                                   *integer_const_expr);
+      RewriteExpressionInMainFileToIntegerConstant(
+          constant_argument_expresion, *integer_const_expr,
+          visitor_->IsConstantArgumentWithDeducedType(
+              *constant_argument_expresion));
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, const llvm::APSInt& integer_constant) {
+    const clang::Expr* expr, const llvm::APSInt& integer_constant,
+    bool preserve_type) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    rewriter_.ReplaceText(source_range_in_main_file,
-                          llvm::toString(integer_constant, 10));
+    std::string replacement = llvm::toString(integer_constant, 10);
+    const clang::QualType type = expr->getType().getUnqualifiedType();
+    if (preserve_type &&
+        !type->isSpecificBuiltinType(clang::BuiltinType::Int)) {
+      replacement =
+          "static_cast<" +
+          type.getAsString(
+              compiler_instance_->getASTContext().getPrintingPolicy()) +
+          ">(" + replacement + ")";
+    }
+    rewriter_.ReplaceText(source_range_in_main_file, replacement);
     return true;
   }
   return false;
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 85f371d..1659b31 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -16,6 +16,7 @@
 
 #include <llvm/ADT/ArrayRef.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <memory>
@@ -26,6 +27,7 @@
 #include "clang/AST/Decl.h"
 #include "clang/AST/DeclBase.h"
 #include "clang/AST/DeclCXX.h"
+#include "clang/AST/DeclTemplate.h"
 #include "clang/AST/Expr.h"
 #include "clang/AST/ExprCXX.h"
 #include "clang/AST/LambdaCapture.h"
@@ -888,7 +890,8 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
       // arguments of the call.
       if (const auto* member_call_expr =
               llvm::dyn_cast<clang::CXXMemberCallExpr>(call_expr)) {
-        const clang::Expr* object = member_call_expr->getImplicitObjectArgument();
+        const clang::Expr* object =
+            member_call_expr->getImplicitObjectArgument();
         // |IgnoreParens| and |IgnoreImpCasts| do not skip over materialized
         // temporaries.
         while (object != nullptr &&
@@ -907,13 +910,43 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   return false;
 }
 
+bool MutateVisitor::IsPlaceholderTemplateParameter(
+    const clang::TemplateSpecializationType& template_specialization_type,
+    size_t index) {
+  const auto* template_decl =
+      template_specialization_type.getTemplateName().getAsTemplateDecl();
+  if (template_decl == nullptr ||
+      template_decl->getTemplateParameters()->size() == 0) {
+    return false;
+  }
+  const auto* parameters = template_decl->getTemplateParameters();
+  // A trailing parameter pack accounts for all remaining arguments.
+  const auto* parameter = parameters->getParam(
+      std::min(static_cast<unsigned>(index), parameters->size() - 1));
+  const auto* non_type_parameter =
+      llvm::dyn_cast<clang::NonTypeTemplateParmDecl>(parameter);
+  return non_type_parameter != nullptr &&
+         non_type_parameter->getType()->getContainedDeducedType() != nullptr;
+}
+
 void MutateVisitor::SaveConstantTemplateArgumentForRewrite(
     const clang::TemplateSpecializationType* template_specialization_type) {
-  for (auto template_argument :
-       template_specialization_type->template_arguments()) {
+  const auto template_arguments =
+      template_specialization_type->template_arguments();
+  for (size_t index = 0; index < template_arguments.size(); index++) {
+    const auto& template_argument = template_arguments[index];
     switch (template_argument.getKind()) {
       case clang::TemplateArgument::Expression:
         // Template Argument is Expression
+        if (template_argument.getAsExpr()->getType()->isEnumeralType()) {
+          // An integer literal would not be a valid argument.
+          break;
+        }
+        if (IsPlaceholderTemplateParameter(*template_specialization_type,
+                                           index)) {
+          constant_arguments_with_deduced_type_.insert(
+              template_argument.getAsExpr());
+        }
         constant_arguments_to_rewrite_.push_back(template_argument.getAsExpr());
         break;
       case clang::TemplateArgument::Type:
-- 
2.43.0


From b9f12e04a3f0310535a3c63468f5e582a7806500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:06 +0000
Subject: [PATCH 22/41] fix: do not mutate references obtained from temporary
 objects via pointers

---
 src/libdredd/src/mutate_visitor.cc | 70 ++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 1659b31..b3dff1d 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -406,6 +406,13 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // Such a reference must also not outlive the storage to which it refers.
+  if (unary_operator->isIncrementDecrementOp() &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(
+          *unary_operator->getSubExpr())) {
+    return;
+  }
+
   if (options_->GetOptimiseMutations()) {
     if (unary_operator->getOpcode() == clang::UO_Minus &&
         (MutationReplaceExpr::ExprIsEquivalentToInt(
@@ -481,6 +488,13 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // Such a reference must also not outlive the storage to which it refers.
+  if (binary_operator->isAssignmentOp() &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(
+          *binary_operator->getLHS())) {
+    return;
+  }
+
   // The operator itself is rewritten, so it must occur directly in the main
   // file: if it comes from a macro then it cannot be rewritten. Logical
   // operators in C are an exception, as they are left in place.
@@ -864,9 +878,10 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   if (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(&expr)) {
     // Consider a member expression whose base expression may depend on the
     // lifetime of a materialized temporary. If the member expression yields
-    // an lvalue or a pointer, then the member expression itself may depend on
-    // the lifetime of the materialized temporary.
-    if (member_expr->isLValue() || member_expr->getType()->isPointerType()) {
+    // an lvalue, a pointer or an array, then the member expression itself may
+    // depend on the lifetime of the materialized temporary.
+    if (member_expr->isLValue() || member_expr->getType()->isPointerType() ||
+        member_expr->getType()->isArrayType()) {
       return MayDependOnLifetimeOfMaterializedTemporaryStorage(
           *member_expr->getBase());
     }
@@ -907,6 +922,55 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
     return false;
   }
 
+  if (expr.getType().isNull() ||
+      (!expr.isLValue() && !expr.getType()->isPointerType() &&
+       !expr.getType()->isArrayType())) {
+    // The value of the expression does not give access to any storage.
+    return false;
+  }
+
+  // The remaining cases are expressions whose result gives access to the same
+  // storage as an operand: dereferences, array accesses, pointer arithmetic,
+  // assignments, conditionals, parentheses and conversions.
+
+  if (const auto* unary_operator =
+          llvm::dyn_cast<clang::UnaryOperator>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+        *unary_operator->getSubExpr());
+  }
+
+  if (const auto* binary_operator =
+          llvm::dyn_cast<clang::BinaryOperator>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+               *binary_operator->getLHS()) ||
+           MayDependOnLifetimeOfMaterializedTemporaryStorage(
+               *binary_operator->getRHS());
+  }
+
+  if (const auto* conditional_operator =
+          llvm::dyn_cast<clang::ConditionalOperator>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+               *conditional_operator->getTrueExpr()) ||
+           MayDependOnLifetimeOfMaterializedTemporaryStorage(
+               *conditional_operator->getFalseExpr());
+  }
+
+  if (const auto* array_subscript_expr =
+          llvm::dyn_cast<clang::ArraySubscriptExpr>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+        *array_subscript_expr->getBase());
+  }
+
+  if (const auto* paren_expr = llvm::dyn_cast<clang::ParenExpr>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+        *paren_expr->getSubExpr());
+  }
+
+  if (const auto* cast_expr = llvm::dyn_cast<clang::CastExpr>(&expr)) {
+    return MayDependOnLifetimeOfMaterializedTemporaryStorage(
+        *cast_expr->getSubExpr());
+  }
+
   return false;
 }
 
-- 
2.43.0


From 0eb76695b2ce671b3faa4959ae896c9941580730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 23/41] fix: report source files that cannot be written

A source file that cannot be overwritten led to an assertion failure, so that
the remaining files were not processed and no mutation info was written. In
release mode the file was described in the mutation info even though it was
not mutated.
---
 src/libdredd/src/mutate_ast_consumer.cc | 27 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index a3704ad..72b881e 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -128,15 +128,6 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
 
   RewriteExpressionsInMainFile();
 
-  if (mutation_info_->has_value()) {
-    mutation_info_for_file.set_filename(
-        ast_context.getSourceManager()
-            .getFileEntryForID(ast_context.getSourceManager().getMainFileID())
-            ->getName()
-            .str());
-    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
-  }
-
   auto& source_manager = ast_context.getSourceManager();
   const clang::SourceLocation start_of_source_file =
       source_manager.translateLineCol(source_manager.getMainFileID(), 1, 1);
@@ -170,9 +161,21 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
   (void)rewriter_result;  // Keep release-mode compilers happy.
   assert(!rewriter_result && "Rewrite failed.\n");
 
-  rewriter_result = rewriter_.overwriteChangedFiles();
-  (void)rewriter_result;  // Keep release mode compilers happy
-  assert(!rewriter_result && "Something went wrong emitting rewritten files.");
+  if (rewriter_.overwriteChangedFiles()) {
+    // The file could not be written, and an error has been reported. As none of
+    // the mutations have been applied, their ids remain available.
+    *mutation_id_ = initial_mutation_id;
+    return;
+  }
+
+  if (mutation_info_->has_value()) {
+    mutation_info_for_file.set_filename(
+        ast_context.getSourceManager()
+            .getFileEntryForID(ast_context.getSourceManager().getMainFileID())
+            ->getName()
+            .str());
+    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
+  }
 }
 
 void MutateAstConsumer::RewriteExpressionsInMainFile() {
-- 
2.43.0


From 8a7a0e048db2c2c5c9fbddd83a2819dc054b7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 24/41] fix: report a mutation info file that cannot be written

---
 src/dredd/src/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dredd/src/main.cc b/src/dredd/src/main.cc
index da21004..3b569fb 100644
--- a/src/dredd/src/main.cc
+++ b/src/dredd/src/main.cc
@@ -183,6 +183,12 @@ int main(int argc, const char** argv) {
     if (json_generation_status.ok()) {
       std::ofstream transformations_json_file(mutation_info_file);
       transformations_json_file << json_string;
+      transformations_json_file.close();
+      if (!transformations_json_file) {
+        llvm::errs() << "Error writing JSON data to " << mutation_info_file
+                     << "\n";
+        return 1;
+      }
     } else {
       llvm::errs() << "Error writing JSON data to " << mutation_info_file
                    << "\n";
-- 
2.43.0


From 4e7e9281325e91dd37b28e0d01dd32df2b0bcdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:30 +0000
Subject: [PATCH 25/41] fix: do not mutate variables declared in conditions
 that come partly from macros

---
 src/libdredd/src/mutate_visitor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index b3dff1d..e5d57fb 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -114,6 +114,11 @@ bool MutateVisitor::TraverseDecl(clang::Decl* decl) {
   if (source_range_in_main_file.isInvalid()) {
     // This declaration is not wholly contained in the main file, so do not
     // consider it for mutation.
+    if (auto* var_decl = llvm::dyn_cast<clang::VarDecl>(decl)) {
+      // Expressions at the location of a variable declaration must not be
+      // mutated even if part of the declaration comes from a macro.
+      VisitVarDecl(var_decl);
+    }
     return true;
   }
   if (const auto* static_assert_decl =
-- 
2.43.0


From a2becd1aea7d800969df662089f38f947937609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 26/41] fix: do not mutate __extension__, __real__ and __imag__
 operators

---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index e5d57fb..85236d2 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -388,6 +388,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // There are no replacements for the operators provided by compiler
+  // extensions.
+  if (unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Extension ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Real ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Imag) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From 59e0fa4fb15716dc194b44dd8a4ecf8f252fbb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 27/41] fix: do not mutate implicit conversions of the
 condition of `a ?: b`

---
 src/libdredd/src/mutate_visitor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 85236d2..b8606f7 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -252,6 +252,18 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // In `a ?: b`, do not mutate the implicit conversions that are applied to the
+  // value of `a`: they have the same source range as `a`, which is visited in
+  // its own right.
+  if (const auto* binary_conditional_operator =
+          GetFirstParentOfType<clang::BinaryConditionalOperator>(
+              *stmt, compiler_instance_->getASTContext())) {
+    if (stmt != binary_conditional_operator->getCommon() &&
+        stmt != binary_conditional_operator->getFalseExpr()) {
+      return true;
+    }
+  }
+
   // Do not mutate the condition of a constexpr if statement.
   if (const auto* if_stmt = GetFirstParentOfType<clang::IfStmt>(
           *stmt, compiler_instance_->getASTContext())) {
-- 
2.43.0


From 6ca967c007a45eb325b21eee2c586cb0859ae772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 28/41] fix: do not remove the expression that provides the
 value of a statement expression

---
 src/libdredd/src/mutate_visitor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index b8606f7..79311bc 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -768,10 +768,15 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
             .isInvalid() ||
         llvm::dyn_cast<clang::NullStmt>(target_stmt) != nullptr ||
         llvm::dyn_cast<clang::DeclStmt>(target_stmt) != nullptr ||
-        llvm::dyn_cast<clang::LabelStmt>(target_stmt) != nullptr) {
+        llvm::dyn_cast<clang::LabelStmt>(target_stmt) != nullptr ||
+        (target_stmt == compound_stmt->getStmtExprResult() &&
+         llvm::dyn_cast<clang::Expr>(target_stmt) != nullptr &&
+         GetFirstParentOfType<clang::StmtExpr>(
+             *compound_stmt, compiler_instance_->getASTContext()) != nullptr)) {
       // Wrapping labels and null statements in conditional code
       // has no effect. Declarations cannot be wrapped in conditional code
-      // without risking breaking compilation.
+      // without risking breaking compilation. The final expression of a GNU
+      // statement expression provides its value.
       continue;
     }
     if (options_->GetOptimiseMutations() &&
-- 
2.43.0


From 355090fb0d46067af40f3351e3caf65d2c046e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 29/41] fix: do not mutate constant operands of assembly
 statements

---
 src/libdredd/src/mutate_visitor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 79311bc..554a88f 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -239,6 +239,17 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate constant operands of assembly statements, as the constraints
+  // on such operands may require them to be constant.
+  if (GetFirstParentOfType<clang::AsmStmt>(
+          *stmt, compiler_instance_->getASTContext()) != nullptr) {
+    const auto* expr = llvm::dyn_cast<clang::Expr>(stmt);
+    if (expr != nullptr && !expr->isValueDependent() &&
+        expr->isIntegerConstantExpr(compiler_instance_->getASTContext())) {
+      return true;
+    }
+  }
+
   // Do not mutate under 'sizeof' or 'alignof', as this is guaranteed to yield
   // equivalent mutants. Note that we *do* want to mutate above these
   // expressions, hence we ignore children of such expressions, rather than
-- 
2.43.0


From 1e7d85bab82f2e4404b7e88eea1bb8e2ebfe9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 30/41] fix: do not mutate the operands of typeof

---
 .../include_private/include/libdredd/mutate_visitor.h  |  5 +++++
 src/libdredd/src/mutate_visitor.cc                     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 651c47f..011b10f 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -67,6 +67,11 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseVariableArrayTypeLoc(
       clang::VariableArrayTypeLoc variable_array_type_loc);
 
+  // Overridden to avoid mutating the operands of `typeof`, which are not
+  // evaluated.
+  bool TraverseTypeOfExprTypeLoc(
+      clang::TypeOfExprTypeLoc type_of_expr_type_loc);
+
   // Overridden to avoid mutating array sizes that are derived from template
   // parameters, because after template instantiation these lead to either
   // constant or variable-sized arrays, neither of which can be mutated in C++.
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 554a88f..9887ac1 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -351,6 +351,16 @@ bool MutateVisitor::TraverseVariableArrayTypeLoc(
       variable_array_type_loc);
 }
 
+bool MutateVisitor::TraverseTypeOfExprTypeLoc(
+    clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)type_of_expr_type_loc;
+  // Only the type of the expression matters, which mutation does not change.
+  return true;
+}
+
 bool MutateVisitor::TraverseDependentSizedArrayTypeLoc(
     clang::DependentSizedArrayTypeLoc dependent_sized_array_type_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From 03a50b5653c9dc29dddbb87a777a2d8c6d945aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 31/41] fix: do not mutate builtin function arguments that need
 to be constant

---
 .../include/libdredd/mutate_visitor.h         |  4 ++
 src/libdredd/src/mutate_visitor.cc            | 45 ++++++++++++++++---
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 011b10f..2605b80 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -256,6 +256,10 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   static bool MayDependOnLifetimeOfMaterializedTemporaryStorage(
       const clang::Expr& expr);
 
+  // Determines whether a builtin function requires that its argument with the
+  // given index is an integer constant.
+  bool BuiltinRequiresConstantArgument(unsigned builtin, unsigned index);
+
   // Determines whether the template argument with the given index is for a
   // non-type parameter whose type is deduced from the argument.
   static bool IsPlaceholderTemplateParameter(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 9887ac1..6f196a1 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -298,13 +298,21 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
   // argument would result in a compile-time error. Thus, we record these
   // arguments' expressions so that they can be rewritten with the values to
   // which the expressions would normally evaluate.
-  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(stmt)) {
-    if (call_expr->getBuiltinCallee() ==
-        clang::Builtin::BI__builtin_frame_address) {
-      // callee is `__builtin_frame_address()`
-      constant_arguments_to_rewrite_.push_back(call_expr->getArg(0));
+  if (const auto* call_expr = GetFirstParentOfType<clang::CallExpr>(
+          *stmt, compiler_instance_->getASTContext())) {
+    const unsigned builtin = call_expr->getBuiltinCallee();
+    if (builtin == clang::Builtin::BI__builtin_constant_p) {
+      // The argument is not evaluated; all that matters is whether it is a
+      // constant.
       return true;
     }
+    for (unsigned index = 0; index < call_expr->getNumArgs(); index++) {
+      if (call_expr->getArg(index) == stmt &&
+          BuiltinRequiresConstantArgument(builtin, index)) {
+        constant_arguments_to_rewrite_.push_back(call_expr->getArg(index));
+        return true;
+      }
+    }
   }
 
   // Do not mutate expression under `decltype`, as Dredd doesn't change the type
@@ -1025,6 +1033,33 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   return false;
 }
 
+bool MutateVisitor::BuiltinRequiresConstantArgument(unsigned builtin,
+                                                    unsigned index) {
+  switch (builtin) {
+    case 0:
+      // Not a builtin function.
+      return false;
+    case clang::Builtin::BI__builtin_assume_aligned:
+    case clang::Builtin::BI__builtin_dynamic_object_size:
+    case clang::Builtin::BI__builtin_object_size:
+    case clang::Builtin::BI__builtin_prefetch:
+      return index > 0;
+    case clang::Builtin::BI__builtin_expect_with_probability:
+      return index > 1;
+    default: {
+      // The types of other builtin functions record which arguments need to be
+      // constant.
+      unsigned integer_constant_arguments = 0;
+      clang::ASTContext::GetBuiltinTypeError error =
+          clang::ASTContext::GE_None;
+      compiler_instance_->getASTContext().GetBuiltinType(
+          builtin, error, &integer_constant_arguments);
+      return error == clang::ASTContext::GE_None && index < 32 &&
+             ((integer_constant_arguments >> index) & 1U) != 0;
+    }
+  }
+}
+
 bool MutateVisitor::IsPlaceholderTemplateParameter(
     const clang::TemplateSpecializationType& template_specialization_type,
     size_t index) {
-- 
2.43.0


From a1e792ca70fe4092c2f2139429098d809736a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:08 +0000
Subject: [PATCH 32/41] fix: do not mutate under GNU array range designators

---
 .../include/libdredd/mutate_visitor.h         |  5 ++++
 src/libdredd/src/mutate_visitor.cc            | 30 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 2605b80..608a16e 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -256,6 +256,11 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   static bool MayDependOnLifetimeOfMaterializedTemporaryStorage(
       const clang::Expr& expr);
 
+  // Determines whether an initializer list features a GNU array range
+  // designator, such as `[0 ... 3] = 1`.
+  static bool HasArrayRangeDesignator(
+      const clang::InitListExpr& init_list_expr);
+
   // Determines whether a builtin function requires that its argument with the
   // given index is an integer constant.
   bool BuiltinRequiresConstantArgument(unsigned builtin, unsigned index);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 6f196a1..69a1e49 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -239,6 +239,14 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate under an initializer list that features a GNU array range
+  // designator, as Clang requires its elements to be free from side effects.
+  if (const auto* init_list_expr = llvm::dyn_cast<clang::InitListExpr>(stmt)) {
+    if (HasArrayRangeDesignator(*init_list_expr)) {
+      return true;
+    }
+  }
+
   // Do not mutate constant operands of assembly statements, as the constraints
   // on such operands may require them to be constant.
   if (GetFirstParentOfType<clang::AsmStmt>(
@@ -1033,6 +1041,28 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   return false;
 }
 
+bool MutateVisitor::HasArrayRangeDesignator(
+    const clang::InitListExpr& init_list_expr) {
+  const clang::InitListExpr* syntactic_form =
+      init_list_expr.isSyntacticForm() ? &init_list_expr
+                                       : init_list_expr.getSyntacticForm();
+  return syntactic_form != nullptr &&
+         std::any_of(
+             syntactic_form->begin(), syntactic_form->end(),
+             [](const clang::Stmt* element) {
+               const auto* designated_init_expr =
+                   llvm::dyn_cast<clang::DesignatedInitExpr>(element);
+               return designated_init_expr != nullptr &&
+                      std::any_of(
+                          designated_init_expr->designators().begin(),
+                          designated_init_expr->designators().end(),
+                          [](const clang::DesignatedInitExpr::Designator&
+                                 designator) {
+                            return designator.isArrayRangeDesignator();
+                          });
+             });
+}
+
 bool MutateVisitor::BuiltinRequiresConstantArgument(unsigned builtin,
                                                     unsigned index) {
   switch (builtin) {
-- 
2.43.0


From ce1d41515f575dd5eac58c16afc7f831f012f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:04 +0000
Subject: [PATCH 33/41] fix: evaluate the operands of assignments and shifts in
 the order required since C++17

---
 .../mutation_replace_binary_operator.h        |  6 +++
 .../src/mutation_replace_binary_operator.cc   | 54 ++++++++++++++-----
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
index d5b4279..3e26c00 100644
--- a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
+++ b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
@@ -45,6 +45,12 @@ class MutationReplaceBinaryOperator : public Mutation {
       std::unordered_set<std::string>& dredd_declarations) const override;
 
  private:
+  // Determine whether the operands are passed to the mutator function via
+  // function objects, so that they are evaluated (if at all) in the required
+  // order.
+  bool PassLhsByFunction(const clang::ASTContext& ast_context) const;
+  bool PassRhsByFunction(const clang::ASTContext& ast_context) const;
+
   std::string GenerateMutatorFunction(
       clang::ASTContext& ast_context, const std::string& function_name,
       const std::string& result_type, const std::string& lhs_type,
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index b257495..1bd1bd7 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -436,6 +436,41 @@ MutationReplaceBinaryOperator::GetReplacementOperators(
   return result;
 }
 
+bool MutationReplaceBinaryOperator::PassLhsByFunction(
+    const clang::ASTContext& ast_context) const {
+  if (!ast_context.getLangOpts().CPlusPlus) {
+    return false;
+  }
+  if (binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+    return true;
+  }
+  // From C++17, the right operand of an assignment is evaluated before the left
+  // operand, so that its side effects can affect the object that is assigned
+  // to, unless this object is named directly.
+  return ast_context.getLangOpts().CPlusPlus17 &&
+         binary_operator_->isAssignmentOp() &&
+         binary_operator_->getRHS()->HasSideEffects(ast_context) &&
+         llvm::dyn_cast<clang::DeclRefExpr>(
+             binary_operator_->getLHS()->IgnoreParens()) == nullptr;
+}
+
+bool MutationReplaceBinaryOperator::PassRhsByFunction(
+    const clang::ASTContext& ast_context) const {
+  if (!ast_context.getLangOpts().CPlusPlus) {
+    return false;
+  }
+  if (binary_operator_->isLogicalOp() ||
+      binary_operator_->getRHS()->HasSideEffects(ast_context)) {
+    return true;
+  }
+  // From C++17, the left operand of a shift is evaluated before the right
+  // operand.
+  return ast_context.getLangOpts().CPlusPlus17 &&
+         binary_operator_->isShiftOp() &&
+         binary_operator_->getLHS()->HasSideEffects(ast_context) &&
+         !IsCxx11ConstantExpr(*binary_operator_->getRHS(), ast_context);
+}
+
 std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
     clang::ASTContext& ast_context, const std::string& function_name,
     const std::string& result_type, const std::string& lhs_type,
@@ -445,17 +480,14 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
   std::stringstream new_function;
   new_function << "static " << result_type << " " << function_name << "(";
 
-  if (ast_context.getLangOpts().CPlusPlus &&
-      binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+  if (PassLhsByFunction(ast_context)) {
     new_function << "std::function<" << lhs_type << "()>";
   } else {
     new_function << lhs_type;
   }
   new_function << " arg1, ";
 
-  if (ast_context.getLangOpts().CPlusPlus &&
-      (binary_operator_->isLogicalOp() ||
-       binary_operator_->getRHS()->HasSideEffects(ast_context))) {
+  if (PassRhsByFunction(ast_context)) {
     new_function << "std::function<" << rhs_type << "()>";
   } else {
     new_function << rhs_type;
@@ -466,8 +498,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
   int mutation_id_offset = 0;
 
   std::string arg1_evaluated("arg1");
-  if (ast_context.getLangOpts().CPlusPlus &&
-      binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+  if (PassLhsByFunction(ast_context)) {
     arg1_evaluated += "()";
   }
   if (!ast_context.getLangOpts().CPlusPlus &&
@@ -476,9 +507,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
   }
 
   std::string arg2_evaluated("arg2");
-  if (ast_context.getLangOpts().CPlusPlus &&
-      (binary_operator_->isLogicalOp() ||
-       binary_operator_->getRHS()->HasSideEffects(ast_context))) {
+  if (PassRhsByFunction(ast_context)) {
     arg2_evaluated += "()";
   }
 
@@ -686,13 +715,12 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   std::string rhs_suffix;
 
   if (ast_context.getLangOpts().CPlusPlus) {
-    if (binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+    if (PassLhsByFunction(ast_context)) {
       lhs_prefix.append("[&]() -> " + lhs_type + " { return static_cast<" +
                         lhs_type + ">(");
       lhs_suffix.append("); }");
     }
-    if (binary_operator_->isLogicalOp() ||
-        binary_operator_->getRHS()->HasSideEffects(ast_context)) {
+    if (PassRhsByFunction(ast_context)) {
       rhs_prefix.append("[&]() -> " + rhs_type + " { return static_cast<" +
                         rhs_type + ">(");
       rhs_suffix.append("); }");
-- 
2.43.0


From fbeac9dd6a1b320eaa4627da84a0f5beabc4cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:28 +0000
Subject: [PATCH 34/41] fix: terminate attributed and assembly statements whose
 semicolon comes from a macro

---
 src/libdredd/src/mutation_remove_stmt.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 59e8f78..f609eb3 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -65,9 +65,14 @@ bool RequiresTerminatingSemicolon(const clang::Stmt& stmt) {
   if (const auto* label_stmt = llvm::dyn_cast<clang::LabelStmt>(&stmt)) {
     return RequiresTerminatingSemicolon(*label_stmt->getSubStmt());
   }
+  if (const auto* attributed_stmt =
+          llvm::dyn_cast<clang::AttributedStmt>(&stmt)) {
+    return RequiresTerminatingSemicolon(*attributed_stmt->getSubStmt());
+  }
   return llvm::isa<clang::Expr, clang::ReturnStmt, clang::BreakStmt,
                    clang::ContinueStmt, clang::GotoStmt,
-                   clang::IndirectGotoStmt, clang::DoStmt>(stmt);
+                   clang::IndirectGotoStmt, clang::DoStmt, clang::GCCAsmStmt>(
+      stmt);
 }
 
 }  // namespace
-- 
2.43.0


From 9e622cccc268a857a760a085e829cb85354eab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:28 +0000
Subject: [PATCH 35/41] fix: do not mutate parenthesised null pointers and null
 member pointers

---
 src/libdredd/src/mutate_visitor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 69a1e49..ec52842 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -619,9 +619,16 @@ void MutateVisitor::HandleExpr(clang::Expr* expr) {
           compiler_instance_->getASTContext(),
           clang::Expr::NullPointerConstantValueDependence()) !=
       clang::Expr::NPCK_NotNull) {
+    const clang::Expr* null_pointer_constant = expr;
+    while (const auto* paren_expr = GetFirstParentOfType<clang::ParenExpr>(
+               *null_pointer_constant, compiler_instance_->getASTContext())) {
+      null_pointer_constant = paren_expr;
+    }
     if (const auto* cast_parent = GetFirstParentOfType<clang::CastExpr>(
-            *expr, compiler_instance_->getASTContext())) {
-      if (cast_parent->getType()->isAnyPointerType()) {
+            *null_pointer_constant, compiler_instance_->getASTContext())) {
+      if (cast_parent->getType()->isAnyPointerType() ||
+          cast_parent->getType()->isMemberPointerType() ||
+          cast_parent->getType()->isNullPtrType()) {
         return;
       }
     }
-- 
2.43.0


From 417e4accf1fae31538e30dfdf0af70c833e0e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 36/41] fix: keep pragmas of loops at the start of a line when
 instrumenting the loop

---
 src/libdredd/src/mutation_remove_stmt.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index f609eb3..0b49d96 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -158,18 +158,31 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
           ? " "
           : "";
 
+  // The source range of a statement that is subject to a pragma, such as a loop
+  // hint, starts with the preprocessor directive, which must remain at the
+  // start of a line.
+  clang::Token first_token{};
+  const std::string directive_separator =
+      !clang::Lexer::getRawToken(
+          source_range.getBegin(), first_token, ast_context.getSourceManager(),
+          ast_context.getLangOpts(), /*IgnoreWhiteSpace=*/false) &&
+              first_token.is(clang::tok::TokenKind::hash)
+          ? "\n"
+          : "";
+
   if (options.GetOnlyTrackMutantCoverage()) {
     const bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
         separator + "__dredd_record_covered_mutants" + ast_node_type_comment + "(" +
-            std::to_string(local_mutation_id) + ", 1); ");
+            std::to_string(local_mutation_id) + ", 1); " +
+            directive_separator);
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   } else {
     bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
         separator + "if (!__dredd_enabled_mutation" + ast_node_type_comment + "(" +
-            std::to_string(local_mutation_id) + ")) { ");
+            std::to_string(local_mutation_id) + ")) { " + directive_separator);
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
     if (!is_extended_with_semi &&
-- 
2.43.0


From 0dc14157846451ad648a2f659ccaa136117bd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 37/41] fix: do not mutate under return statements that require
 a tail call

---
 src/libdredd/src/mutate_visitor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index ec52842..35f7876 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -233,6 +233,17 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate under a return statement that requires a tail call, as the
+  // result of the call must be returned directly.
+  if (const auto* attributed_stmt =
+          llvm::dyn_cast<clang::AttributedStmt>(stmt)) {
+    for (const auto* attr : attributed_stmt->getAttrs()) {
+      if (llvm::isa<clang::MustTailAttr>(attr)) {
+        return true;
+      }
+    }
+  }
+
   // Do not mutate under a 'noexcept', since it requires a constexpr argument
   // and mutation logic is inherently non-constant.
   if (llvm::dyn_cast<clang::CXXNoexceptExpr>(stmt) != nullptr) {
-- 
2.43.0


From 35926c55b18d0429dfba974a42a2616b91774e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 38/41] fix: do not mutate expressions of the storage-only type
 __fp16

---
 src/libdredd/src/mutate_visitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 35f7876..e482c56 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -67,7 +67,10 @@ bool MutateVisitor::IsTypeSupported(const clang::QualType qual_type) {
     return false;
   }
   const auto* builtin_type = qual_type->getAs<clang::BuiltinType>();
+  // The __fp16 type is not supported: it is a storage-only type, so that it
+  // cannot be the type of a parameter or the return type of a function.
   return builtin_type != nullptr &&
+         builtin_type->getKind() != clang::BuiltinType::Half &&
          (builtin_type->isInteger() || builtin_type->isFloatingPoint());
 }
 
-- 
2.43.0


From 7a57b5a3ad87e9a41fd2240ca6a4876002999c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:51 +0000
Subject: [PATCH 39/41] fix: keep a byte order mark at the start of the file

---
 src/libdredd/src/mutate_ast_consumer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 72b881e..0737f6c 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -129,8 +129,16 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
   RewriteExpressionsInMainFile();
 
   auto& source_manager = ast_context.getSourceManager();
+  // If the source file starts with a UTF-8 byte order mark then it must stay at
+  // the start of the file.
+  const llvm::StringRef utf8_byte_order_mark = "\xEF\xBB\xBF";
   const clang::SourceLocation start_of_source_file =
-      source_manager.translateLineCol(source_manager.getMainFileID(), 1, 1);
+      source_manager.getLocForStartOfFile(source_manager.getMainFileID())
+          .getLocWithOffset(
+              source_manager.getBufferData(source_manager.getMainFileID())
+                      .startswith(utf8_byte_order_mark)
+                  ? static_cast<int>(utf8_byte_order_mark.size())
+                  : 0);
   const clang::SourceLocation dredd_prelude_start_location =
       visitor_->HasDreddPreludeStartLocation()
           ? visitor_->GetDreddPreludeStartLocation()
-- 
2.43.0


From 0ccb83851f4679a343ab678d7c48d3a02e4fc807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:51 +0000
Subject: [PATCH 40/41] fix: separate inserted identifiers from dollars and
 multi-byte characters

---
 src/libdredd/src/util.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 67736f3..a17b6a8 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -243,11 +243,12 @@ bool PrecedingCharacterIsIdentifierCharacter(
   if (is_invalid) {
     return false;
   }
-  // There is a previous character. Check whether it is alphanumeric, or an
-  // underscore.
-  const char character_before_location =
-      pointer_to_character_before_location[0];
-  return character_before_location == '_' ||
+  // There is a previous character. Check whether it is alphanumeric, an
+  // underscore, a dollar or part of a multi-byte character.
+  const auto character_before_location =
+      static_cast<unsigned char>(pointer_to_character_before_location[0]);
+  return character_before_location == '_' || character_before_location == '$' ||
+         character_before_location >= 0x80 ||
          static_cast<bool>(std::isalnum(character_before_location));
 }
 
-- 
2.43.0


From 9aa40dd08bc48aea84c941ac257b3ee6f17b40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 41/41] fix: do not mutate under the implicit copy of an array

---
 src/libdredd/src/mutate_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index e482c56..d42b785 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -253,6 +253,12 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate under the implicit element-wise copy of an array, as its
+  // expressions do not occur in the source code.
+  if (llvm::dyn_cast<clang::ArrayInitLoopExpr>(stmt) != nullptr) {
+    return true;
+  }
+
   // Do not mutate under an initializer list that features a GNU array range
   // designator, as Clang requires its elements to be free from side effects.
   if (const auto* init_list_expr = llvm::dyn_cast<clang::InitListExpr>(stmt)) {
-- 
2.43.0

