From 27aa1cc76591f1fb2159d29bd289d9a18bfe6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 01/64] fix: Arena: return memory aligned for any object type

Alloc() handed out the next free byte, so after an allocation of odd size
(e.g. characters of a concatenated string) following objects were placed at
misaligned addresses, which is undefined behavior.
---
 bant/util/arena.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/util/arena.h b/bant/util/arena.h
index 83fe655..e28e085 100644
--- a/bant/util/arena.h
+++ b/bant/util/arena.h
@@ -34,7 +34,10 @@ class Arena {
   Arena(Arena &&) noexcept = default;
   Arena(const Arena &) = delete;
 
+  // Returned memory is suitably aligned for any object type.
   void *Alloc(size_t size) {
+    static constexpr size_t kAlign = alignof(std::max_align_t);
+    size = (size + kAlign - 1) / kAlign * kAlign;
     if (pos_ == nullptr || size > (size_t)(end_ - pos_)) {
       NewBlock(std::max(size, block_size_));  // max: allow oversized allocs
     }
-- 
2.43.0


From 6af64137913080134820a664e9cc4d59a27de1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 02/64] fix: Scanner: 'not' followed by an identifier starting
 with 'in' is not 'not in'

'not include_it' was scanned as 'not in' followed by identifier 'clude_it'.
---
 bant/frontend/scanner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..1c1380b 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -116,7 +116,8 @@ bool Scanner::ConsumeOptionalIn() {
   while (run < end_ && absl::ascii_isspace(*run)) {
     ++run;
   }
-  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
+  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
+      (end_ - run == 2 || !IsIdentifierChar(run[2]))) {
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From 2da4d53f37b86a2a7960b7794dac0ff41645aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 03/64] fix: Scanner: account for newlines between 'not' and
 'in'

The newlines were skipped without being registered in the line index, so
everything following was reported with a wrong line number.
---
 bant/frontend/scanner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index 1c1380b..22dbf29 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -118,6 +118,12 @@ bool Scanner::ConsumeOptionalIn() {
   }
   if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
       (end_ - run == 2 || !IsIdentifierChar(run[2]))) {
+    for (/**/; pos_ < run; ++pos_) {
+      if (*pos_ == '\n') {
+        source_.mutable_line_index()->PushNewline(pos_ + 1);
+        ++newline_count_;
+      }
+    }
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From 3f4ad813f882fcfc86778510ac70195b71381676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 04/64] fix: strip all quotes of ''' triple quoted ''' strings

Only triple-double-quotes were handled, so '''abc''' yielded the
value ''abc''.
---
 bant/frontend/ast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 8982c38..8b03202 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -57,7 +57,8 @@ StringScalar *StringScalar::FromLiteral(Arena *arena,
     is_raw = true;
     literal.remove_prefix(1);
   }
-  if (literal.length() >= 6 && literal.substr(0, 3) == R"(""")") {
+  if (literal.length() >= 6 &&
+      (literal.substr(0, 3) == R"(""")" || literal.substr(0, 3) == "'''")) {
     is_triple_quoted = true;
     literal = literal.substr(3);
     literal.remove_suffix(3);
-- 
2.43.0


From f797171735b5c9c904fb8e551e3c5bdc5ee7b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 05/64] fix: don't dereference missing nodes of files with
 parse errors

---
 bant/explore/query-utils.cc     |  2 +-
 bant/frontend/elaboration.cc    | 11 ++++++++---
 bant/frontend/parsed-project.cc |  2 +-
 bant/tool/dwyu.cc               |  2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..279975d 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -191,7 +191,7 @@ void FindTargetsAllowEmptyName(
 void AppendStringList(List *list, std::vector<std::string_view> &append_to) {
   if (list == nullptr) return;
   for (Node *n : *list) {
-    Scalar *scalar = n->CastAsScalar();
+    Scalar *scalar = n ? n->CastAsScalar() : nullptr;
     if (!scalar) continue;
     if (const std::string_view str = scalar->AsString(); !str.empty()) {
       append_to.push_back(str);
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..e3db717 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -98,6 +98,9 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     if (!bin_op) return post_visit;
     switch (bin_op->op()) {
     case '+': {
+      if (!bin_op->left() || !bin_op->right()) {
+        return bin_op;  // Incomplete expression due to parse error.
+      }
       {
         List *left = bin_op->left()->CastAsList();
         List *right = bin_op->right()->CastAsList();
@@ -156,11 +159,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *HandleSelect(FunCall *fun) {
     for (Node *arg : *fun->argument()) {
-      List *const select_map = arg->CastAsList();
+      List *const select_map = arg ? arg->CastAsList() : nullptr;
       if (!select_map || select_map->type() != List::Type::kMap) continue;
       for (Node *item : *select_map) {
-        BinOpNode *map_item = item->CastAsBinOp();
+        BinOpNode *map_item = item ? item->CastAsBinOp() : nullptr;
         if (!map_item || map_item->op() != ':') continue;
+        if (!map_item->left() || !map_item->right()) continue;
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
           return map_item->right();
@@ -175,12 +179,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     List *include_list = nullptr;
     List *exclude_list = nullptr;
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;
       if (List *as_list = arg->CastAsList()) {
         include_list = as_list;  // include_list is positional parameter.
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-        if (!kwarg->maybe_identifier()) continue;
+        if (!kwarg->maybe_identifier() || !kwarg->value()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..8937b68 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -241,7 +241,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   if (!visibility) return;
   out << " (visibility:";
   for (Node *v : *visibility) {
-    Scalar *s = v->CastAsScalar();
+    Scalar *s = v ? v->CastAsScalar() : nullptr;
     if (!s) continue;
     out << " " << s->AsString();
   }
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..e5d5919 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -220,7 +220,7 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
   if (!visibility_list) return true;
   bool any_valid_visiblity_pattern = false;
   for (Node *entry : *visibility_list) {
-    const Scalar *str = entry->CastAsScalar();
+    const Scalar *str = entry ? entry->CastAsScalar() : nullptr;
     if (!str) continue;
     auto vis_or = BazelPattern::ParseVisibility(str->AsString(), dep.package);
     if (!vis_or.has_value()) continue;
-- 
2.43.0


From 01524efd16ccb9a3e059616206a1fffac5448bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 06/64] fix: don't replace name of called function with value
 of variable

---
 bant/frontend/ast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..3e40fbe 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -393,7 +393,7 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // Not visiting the function name: must always stay an identifier.
     ReplaceWalk(&f->right_);
     return f;
   }
-- 
2.43.0


From 73153de3798c29c836dd3c94b3ca086b96b66afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 07/64] fix: dependency graph: don't crash on BUILD file that
 can't be read

---
 bant/explore/dependency-graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..3620060 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -85,6 +85,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (file == nullptr) {  // Could not be read.
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From b10f880986c5f86e193a0b2b692d013c37be8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 08/64] fix: parser: report missing operand and missing
 identifier as error

---
 bant/frontend/parser.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index e6464d8..16fa673 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -105,7 +105,7 @@ class Parser::Impl {
       if (tok.type == '(') {  // tuple assignment. Rarely seen in the wild.
         List *lhs = ParseList(
           Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
+          [&]() { return ParseIdentifier(); }, TokenType::kCloseParen);
         if (lhs == nullptr) {
           ErrAt(tok) << "expected LHS of a tuple assignment\n";
           return statement_list;
@@ -298,7 +298,7 @@ class Parser::Impl {
     case '-':
     case TokenType::kNot: {
       const Token tok = scanner_->Next();
-      n = Make<UnaryExpr>(tok.type, ParseExpression(can_be_optional));
+      n = Make<UnaryExpr>(tok.type, ParseExpression());
       break;
     }
     case '(': n = ParseParenExpressionOrTuple(); break;
@@ -456,13 +456,14 @@ class Parser::Impl {
     return ParseList(result, element_parser, expected_close_token);
   }
 
-  // Parse next thing but only if it is an identifier.
-  Identifier *ParseOptionalIdentifier() {
+  // Parse next thing, expected to be an identifier.
+  Identifier *ParseIdentifier() {
     LOG_ENTER();
     if (scanner_->Peek().type == TokenType::kIdentifier) {
       const Token tok = scanner_->Next();
       return Make<Identifier>(tok.text);
     }
+    ErrAt(scanner_->Peek()) << "expected identifier\n";
     return nullptr;
   }
 
@@ -487,7 +488,7 @@ class Parser::Impl {
         scanner_->Next();                  // Consume open tuple '('
         variable_tuple = ParseList(        // .. parse until we see close ')'
           Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
+          [&]() { return ParseIdentifier(); }, TokenType::kCloseParen);
         const Token expected_in = scanner_->Next();
         if (expected_in.type != TokenType::kIn) {
           ErrAt(expected_in) << "expected 'in' after variable tuple\n";
@@ -495,7 +496,7 @@ class Parser::Impl {
       } else {  // i, j, k case. Here the expected list end token is 'in'
         variable_tuple = ParseList(
           Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kIn);
+          [&]() { return ParseIdentifier(); }, TokenType::kIn);
       }
 
       Node *values_to_iterate_over = ParseExpression();
-- 
2.43.0


From 78b95f192b6337a8172a2625c2e5a40860d00012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 09/64] fix: compilation-db: don't crash on include_prefix in
 main project

---
 bant/tool/compilation-db.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..f3dba56 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -165,6 +165,9 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
       {"cc_library", "cc_binary", "cc_test", "proto_library"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
+        if (!target.has_value()) {
+          return;
+        }
         // If we're one of those targets that come with the own -I prefix,
         // add all these.
         const auto inc_dirs = query::ExtractStringList(details.includes_list);
@@ -184,9 +187,16 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
           // to use this feature.
           const std::string_view external_project = target->package.project;
           const std::string_view target_path = target->package.path;
-          const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
-            "/_virtual_includes/", target->target_name);
+          std::string virt_incdir = "bazel-bin/";
+          if (!external_project.empty()) {
+            absl::StrAppend(&virt_incdir, "external/",
+                            external_project.substr(1), "/");
+          }
+          if (!target_path.empty()) {
+            absl::StrAppend(&virt_incdir, target_path, "/");
+          }
+          absl::StrAppend(&virt_incdir, "_virtual_includes/",
+                          target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
           }
-- 
2.43.0


From 684f94fd2e10edffb5535232ddeb879ae2763d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 10/64] fix: print: terminate on regular expressions matching
 the empty string

---
 bant/frontend/print-visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 91bc682..1b7728e 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -50,6 +50,12 @@ void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
   std::string_view highlight;
   if (highlight_re_) {
     while (RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {
+      if (highlight.empty()) {  // A match, but nothing to highlight.
+        any_highlight_ = true;
+        if (print_str.empty()) break;
+        print_str.remove_prefix(1);  // Make sure to get ahead.
+        continue;
+      }
       out_ << std::string_view(last_end, highlight.data() - last_end);
       if (do_color_) out_ << kColor.highlight;
       out_ << highlight;
-- 
2.43.0


From a08540332549ac306af4f4e59b880f4965263750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 11/64] fix: print: emit parentheses needed to preserve nesting
 of expressions

---
 bant/frontend/print-visitor.cc | 70 ++++++++++++++++++++++++++++++++--
 bant/frontend/print-visitor.h  |  1 +
 2 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 1b7728e..cdebcee 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -117,6 +117,64 @@ void PrintVisitor::VisitList(List *l) {
   PrintListTypeClose(l->type(), out_);
 }
 
+namespace {
+// Determine if an expression ends with an operand that would attract an
+// operator printed right after it, so needs to be put in parentheses.
+class OpenEndedTester : public BaseVoidVisitor {
+ public:
+  static bool Test(Node *n) {
+    OpenEndedTester tester;
+    tester.WalkNonNull(n);
+    return tester.open_ended_;
+  }
+
+  void VisitBinOpNode(BinOpNode *b) final { open_ended_ = (b->op() != '['); }
+  void VisitUnaryExpr(UnaryExpr *) final { open_ended_ = true; }
+  void VisitTernary(Ternary *) final { open_ended_ = true; }
+  void VisitFunCall(FunCall *) final {}
+  void VisitList(List *) final {}
+  void VisitListComprehension(ListComprehension *) final {}
+
+ private:
+  bool open_ended_ = false;
+};
+
+// Determine if the expression ends with an 'if' without 'else'.
+class DanglingIfTester : public BaseVoidVisitor {
+ public:
+  static bool Test(Node *n) {
+    DanglingIfTester tester;
+    tester.WalkNonNull(n);
+    return tester.dangling_if_;
+  }
+
+  void VisitBinOpNode(BinOpNode *b) final {
+    if (b->op() != '[') WalkNonNull(b->right());
+  }
+  void VisitTernary(Ternary *t) final {
+    dangling_if_ = !t->negative();
+    WalkNonNull(t->negative());
+  }
+  void VisitFunCall(FunCall *) final {}
+  void VisitList(List *) final {}
+  void VisitListComprehension(ListComprehension *) final {}
+
+ private:
+  bool dangling_if_ = false;
+};
+
+bool IsNumber(Node *n) {
+  Scalar *const scalar = n ? n->CastAsScalar() : nullptr;
+  return scalar && scalar->type() == Scalar::ScalarType::kInt;
+}
+}  // namespace
+
+void PrintVisitor::PrintOperand(Node *n, bool in_parens) {
+  if (in_parens) out_ << "(";
+  WalkNonNull(n);
+  if (in_parens) out_ << ")";
+}
+
 void PrintVisitor::VisitUnaryExpr(UnaryExpr *e) {
   out_ << e->op();
   if (e->op() == TokenType::kNot) out_ << " ";
@@ -132,7 +190,12 @@ void PrintVisitor::VisitAssignment(Assignment *a) {
 }
 
 void PrintVisitor::VisitBinOpNode(BinOpNode *b) {
-  WalkNonNull(b->left());
+  // Map entries and comprehensions are separated by their 'operator' already.
+  const bool is_operator =
+    b->op() != TokenType::kColon && b->op() != TokenType::kFor;
+  PrintOperand(b->left(),
+               (is_operator && OpenEndedTester::Test(b->left())) ||
+                 (b->op() == '.' && IsNumber(b->left())));
   if (b->op() == '.' || b->op() == '[') {
     out_ << b->op();  // No spacing around some operators.
   } else {
@@ -151,9 +214,10 @@ void PrintVisitor::VisitListComprehension(ListComprehension *lh) {
 }
 
 void PrintVisitor::VisitTernary(Ternary *t) {
-  WalkNonNull(t->positive());
+  PrintOperand(t->positive(), OpenEndedTester::Test(t->positive()));
   out_ << " if ";
-  WalkNonNull(t->condition());
+  PrintOperand(t->condition(),
+               t->negative() && DanglingIfTester::Test(t->condition()));
   if (t->negative()) {
     out_ << " else ";
     t->negative()->Accept(this);
diff --git a/bant/frontend/print-visitor.h b/bant/frontend/print-visitor.h
index 403b4ab..4f5247b 100644
--- a/bant/frontend/print-visitor.h
+++ b/bant/frontend/print-visitor.h
@@ -48,6 +48,7 @@ class PrintVisitor : public BaseVoidVisitor {
 
  private:
   void PrintMaybeHighlight(std::string_view print_str);
+  void PrintOperand(Node *n, bool in_parens);
 
   std::ostream &out_;
   const RE2 *const highlight_re_;
-- 
2.43.0


From 22cb5659cd522d0f2c85fffd2db866df48bc944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 12/64] fix: print: choose quotes that don't end the string
 early

---
 bant/frontend/print-visitor.cc | 52 ++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index cdebcee..b44264e 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -169,6 +169,34 @@ bool IsNumber(Node *n) {
 }
 }  // namespace
 
+// Determine if putting "content" in quotes would result in a string literal that
+// already ends within it.
+static bool EndsString(std::string_view content, char quote, bool triple) {
+  int consecutive = 0;
+  for (size_t i = 0; i < content.size(); ++i) {
+    if (content[i] != quote) {
+      consecutive = 0;
+      if (content[i] == '\\') ++i;  // Skip escaped character.
+      continue;
+    }
+    if (!triple || ++consecutive == 3) return true;
+  }
+  return consecutive > 0;  // Would be seen as part of the closing quotes.
+}
+
+// Escape all quotes that are not escaped yet.
+static std::string EscapeQuotes(std::string_view content, char quote) {
+  std::string result;
+  for (size_t i = 0; i < content.size(); ++i) {
+    if (content[i] == quote) result.push_back('\\');
+    result.push_back(content[i]);
+    if (content[i] == '\\' && i + 1 < content.size()) {
+      result.push_back(content[++i]);
+    }
+  }
+  return result;
+}
+
 void PrintVisitor::PrintOperand(Node *n, bool in_parens) {
   if (in_parens) out_ << "(";
   WalkNonNull(n);
@@ -234,16 +262,22 @@ void PrintVisitor::VisitScalar(Scalar *s) {
   } else {
     const StringScalar *str = static_cast<StringScalar *>(s);
     if (str->is_raw()) out_ << "r";
-    // Minimal-effort quote char choosing. TODO: look if escaped
-    const bool has_any_double_quote =
-      str->AsString().find_first_of('"') != std::string_view::npos;
-    const char quote_char = has_any_double_quote ? '\'' : '"';
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    const std::string_view content = str->AsString();
+    const bool triple = str->is_triple_quoted();
+    char quote_char = '"';
+    if (EndsString(content, '"', triple) && !EndsString(content, '\'', triple)) {
+      quote_char = '\'';
+    }
+    const std::string quote(triple ? 3 : 1, quote_char);
 
-    out_ << quote_char;
-    PrintMaybeHighlight(str->AsString());
-    out_ << quote_char;
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    out_ << quote;
+    if (EndsString(content, quote_char, triple)) {
+      // Only possible if the content was assembled from multiple strings.
+      PrintMaybeHighlight(EscapeQuotes(content, quote_char));
+    } else {
+      PrintMaybeHighlight(content);
+    }
+    out_ << quote;
   }
 }
 
-- 
2.43.0


From 82c3bdbdc1cf56852ed903c7db98148714e1f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 13/64] fix: parser: member access binds tighter than any
 operator

---
 bant/frontend/parser.cc        | 23 ++++++++++++++++++-----
 bant/frontend/print-visitor.cc |  6 ++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index 16fa673..5709dd2 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -140,9 +140,8 @@ class Parser::Impl {
         break;
       case TokenType::kDot:
         statement_list->Append(
-          node_arena_,
-          Make<BinOpNode>(Make<Identifier>(tok.text), ParseExpression(),
-                          TokenType::kDot, after_id.text));
+          node_arena_, ParseSuffixOrOperator(ParseMember(
+                         Make<Identifier>(tok.text), after_id)));
         break;
       default:
         ErrAt(after_id) << "expected `(` or `=`\n";
@@ -305,8 +304,20 @@ class Parser::Impl {
     default: n = ParseValueOrIdentifier(can_be_optional);
     }
     if (n == nullptr) return n;
+    return ParseSuffixOrOperator(n);
+  }
 
-    for (;;) {  // The array access is the only one who can continue.
+  BinOpNode *ParseMember(Node *scope, const Token &dot) {
+    LOG_ENTER();
+    // '.' already consumed.
+    Node *const member = ParseValueOrIdentifier(/*can_be_optional=*/false);
+    return Make<BinOpNode>(scope, member, dot.type, dot.text);
+  }
+
+  // Given first operand "n", parse what follows.
+  Node *ParseSuffixOrOperator(Node *n) {
+    LOG_ENTER();
+    for (;;) {  // Array access and scoped invocation can continue.
       const Token upcoming = scanner_->Peek();
       if (upcoming.type == TokenType::kIf) {
         return ParseIfElse(n);
@@ -330,7 +341,6 @@ class Parser::Impl {
       case TokenType::kAnd:
       case TokenType::kOr:
       case TokenType::kPipeOrBitwiseOr:
-      case '.':    // scoped invocation
       case '%': {  // format expr.
         const Token op = scanner_->Next();
         return Make<BinOpNode>(n, ParseExpression(), op.type, op.text);
@@ -344,6 +354,9 @@ class Parser::Impl {
         // Suffix expression, maybe there is more. Don't return, continue.
         break;
       }
+      case '.':  // scoped invocation, also a suffix expression.
+        n = ParseMember(n, scanner_->Next());
+        break;
       default: return n;
       }
     }
diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index b44264e..008f5f3 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -128,7 +128,9 @@ class OpenEndedTester : public BaseVoidVisitor {
     return tester.open_ended_;
   }
 
-  void VisitBinOpNode(BinOpNode *b) final { open_ended_ = (b->op() != '['); }
+  void VisitBinOpNode(BinOpNode *b) final {
+    open_ended_ = (b->op() != '[' && b->op() != '.');
+  }
   void VisitUnaryExpr(UnaryExpr *) final { open_ended_ = true; }
   void VisitTernary(Ternary *) final { open_ended_ = true; }
   void VisitFunCall(FunCall *) final {}
@@ -149,7 +151,7 @@ class DanglingIfTester : public BaseVoidVisitor {
   }
 
   void VisitBinOpNode(BinOpNode *b) final {
-    if (b->op() != '[') WalkNonNull(b->right());
+    if (b->op() != '[' && b->op() != '.') WalkNonNull(b->right());
   }
   void VisitTernary(Ternary *t) final {
     dangling_if_ = !t->negative();
-- 
2.43.0


From 003f8d54a5cce953dfcb8285b9890578d95bfda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 14/64] fix: print: don't group operands of division, which is
 not Starlark

---
 bant/frontend/print-visitor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 008f5f3..174b294 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -221,8 +221,10 @@ void PrintVisitor::VisitAssignment(Assignment *a) {
 
 void PrintVisitor::VisitBinOpNode(BinOpNode *b) {
   // Map entries and comprehensions are separated by their 'operator' already.
-  const bool is_operator =
-    b->op() != TokenType::kColon && b->op() != TokenType::kFor;
+  // Not grouping operands of '/' (no Starlark operator, there it is '//') as
+  // the parser does not consider precedence yet.
+  const bool is_operator = b->op() != TokenType::kColon &&
+                           b->op() != TokenType::kFor && b->op() != '/';
   PrintOperand(b->left(),
                (is_operator && OpenEndedTester::Test(b->left())) ||
                  (b->op() == '.' && IsNumber(b->left())));
-- 
2.43.0


From 55c02a8b99364807a6d15871e4004f70daef05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 15/64] fix: elaboration: loop variables are not the global
 variables of same name

---
 bant/frontend/elaboration.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e3db717..ad6ca6d 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -85,6 +85,21 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
+  // Loop variables hide global variables of the same name.
+  Node *VisitListComprehension(ListComprehension *lh) final {
+    const auto outer_variables = global_variables_;
+    BinOpNode *for_node = lh->for_node();
+    while (for_node && for_node->op() == TokenType::kFor) {
+      BinOpNode *in = for_node->right() ? for_node->right()->CastAsBinOp()  //
+                                        : nullptr;
+      if (in && in->left()) ForgetVariables(in->left()->CastAsList());
+      for_node = for_node->left() ? for_node->left()->CastAsBinOp() : nullptr;
+    }
+    Node *result = BaseNodeReplacementVisitor::VisitListComprehension(lh);
+    global_variables_ = outer_variables;
+    return result;
+  }
+
   // Variable substituion with value if known.
   Node *VisitIdentifier(Identifier *i) final {
     auto found = global_variables_.find(i->id());
@@ -130,6 +145,16 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
  private:
+  // We don't know the value of these variables (anymore).
+  void ForgetVariables(List *identifiers) {
+    if (!identifiers) return;
+    for (Node *n : *identifiers) {
+      if (Identifier *id = n ? n->CastAsIdentifier() : nullptr) {
+        global_variables_.erase(id->id());
+      }
+    }
+  }
+
   List *ConcatLists(List *left, List *right) {
     List *result = Make<List>(left->type());
     for (Node *n : *left) {
-- 
2.43.0


From 85c5870268532308c3fb88402055df50e9e0ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 16/64] fix: elaboration: tuple assignment changes values of
 variables

---
 bant/frontend/elaboration.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index ad6ca6d..45b66c0 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -81,6 +81,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
     if (nest_level_ == 0 && a->maybe_identifier()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
+    } else if (nest_level_ == 0 && a->left()) {
+      ForgetVariables(a->left()->CastAsList());  // Tuple assignment.
     }
     return result;
   }
-- 
2.43.0


From 26d9033161e099861ea1eb56e7943fef1f9b0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 17/64] fix: elaboration: don't replace member name with value
 of variable

---
 bant/frontend/ast.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index 3e40fbe..1f712d0 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -412,7 +412,10 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
 
   Node *VisitBinOpNode(BinOpNode *b) override {
     ReplaceWalk(&b->left_);
-    ReplaceWalk(&b->right_);
+    // The name of a member is not a variable.
+    const bool is_member_name = b->op() == TokenType::kDot && b->right_ &&
+                                b->right_->CastAsIdentifier();
+    if (!is_member_name) ReplaceWalk(&b->right_);
     return b;
   }
 
-- 
2.43.0


From 18ea17c2964cc176f91b90cc1d6e878a5f815a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 18/64] fix: elaboration: second positional parameter of glob()
 is exclude list

---
 bant/frontend/elaboration.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 45b66c0..a08c951 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -202,13 +202,18 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
   Node *HandleGlob(FunCall *fun) {
-    // Extract arguments. include_list is allowed to be a positional parameter.
+    // Extract arguments; include and exclude can be positional parameters.
     List *include_list = nullptr;
     List *exclude_list = nullptr;
+    int positional_parameter = 0;
     for (Node *arg : *fun->argument()) {
       if (!arg) continue;
-      if (List *as_list = arg->CastAsList()) {
-        include_list = as_list;  // include_list is positional parameter.
+      if (!arg->CastAsAssignment()) {
+        switch (positional_parameter++) {
+        case 0: include_list = arg->CastAsList(); break;
+        case 1: exclude_list = arg->CastAsList(); break;
+        default: break;
+        }
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-- 
2.43.0


From b43c0558e85e02dbe2127227f4b1043b3ed98299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 19/64] fix: elaboration: concatenation of raw or triple quoted
 strings keeps content

---
 bant/frontend/elaboration.cc | 37 ++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index a08c951..213c96e 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -137,7 +137,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
           return ConcatStrings(project_->GetLocation(bin_op->source_range()),
-                               left->AsString(), right->AsString());
+                               static_cast<StringScalar *>(left),
+                               static_cast<StringScalar *>(right));
         }
       }
       return bin_op;  // Unimplemented op. Return as-is.
@@ -168,20 +169,40 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
+  // Content of a string as found in a string literal that is not raw.
+  static std::string NonRawContent(const StringScalar *str) {
+    std::string result;
+    for (const char c : str->AsString()) {
+      if (c == '\\' && str->is_raw()) result.push_back(c);
+      result.push_back(c);
+    }
+    return result;
+  }
+
   StringScalar *ConcatStrings(const FileLocation &op_location,
-                              std::string_view left, std::string_view right) {
-    const size_t new_length = left.size() + right.size();
-    char *new_str = static_cast<char *>(project_->arena()->Alloc(new_length));
-    memcpy(new_str, left.data(), left.size());
-    memcpy(new_str + left.size(), right.data(), right.size());
-    const std::string_view assembled{new_str, new_length};
+                              StringScalar *left, StringScalar *right) {
+    std::string content(left->AsString());
+    content.append(right->AsString());
+    // Escaping is not possible in raw strings, so in the presence of quotes
+    // the combined content might not be representable in a raw string.
+    const bool is_raw = left->is_raw() && right->is_raw() &&
+                        content.find_first_of("'\"") == std::string::npos;
+    if (!is_raw) {
+      content = NonRawContent(left) + NonRawContent(right);
+    }
+    char *new_str =
+      static_cast<char *>(project_->arena()->Alloc(content.size()));
+    memcpy(new_str, content.data(), content.size());
+    const std::string_view assembled{new_str, content.size()};
 
     // Whenever anyone is asking for where this string is coming from, tell
     // them the original location where the operation is coming from.
     project_->RegisterLocationRange(assembled,
                                     Make<FixedSourceLocator>(op_location));
 
-    return Make<StringScalar>(assembled, false, false);
+    const bool is_triple_quoted =
+      left->is_triple_quoted() || right->is_triple_quoted();
+    return Make<StringScalar>(assembled, is_triple_quoted, is_raw);
   }
 
   Node *HandleSelect(FunCall *fun) {
-- 
2.43.0


From baedce3e52fce2e9d771412c1f49b4c06e1f56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 20/64] fix: elaboration: functions called on something are not
 the builtin glob() or select()

---
 bant/frontend/elaboration.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 213c96e..3ebcd54 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -61,6 +61,9 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   Node *VisitFunCall(FunCall *f) final {
     const NestCounter c(&nest_level_);
     BaseNodeReplacementVisitor::VisitFunCall(f);
+    if (member_functions_.contains(f)) {
+      return f;  // foo.glob() is not the builtin function.
+    }
     const std::string_view fun_name = f->identifier()->id();
     if (fun_name == "glob") {
       return HandleGlob(f);
@@ -110,6 +113,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   // Very narrow of operations actually supported. Only what we typically need.
   Node *VisitBinOpNode(BinOpNode *b) final {
+    if (b->op() == '.') member_functions_.insert(b->right());
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
@@ -341,6 +345,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   int nest_level_ = 0;
   absl::flat_hash_map<std::string_view, Node *> global_variables_;
   absl::flat_hash_set<std::string> conditions_;
+  absl::flat_hash_set<const Node *> member_functions_;
 };
 
 }  // namespace
-- 
2.43.0


From 82d51d3f8eea268825d07d91b05781711f95a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 21/64] fix: glob(): '**' matches whole path segments only,
 also as last segment; result is sorted

---
 bant/frontend/elaboration.cc    |  5 +++++
 bant/util/glob-match-builder.cc | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 3ebcd54..762a6cb 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/elaboration.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <string>
@@ -330,6 +331,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         return file_matcher(std::string_view(file.path()).substr(skip_prefix));
       });
     glob_stats.count += checked_files;
+    std::sort(result.begin(), result.end(),
+              [](const FilesystemPath &a, const FilesystemPath &b) {
+                return a.path() < b.path();
+              });
     return result;
   }
 
diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 83b4a12..5c455e6 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -38,13 +38,21 @@ class PathMatcher {
  public:
   PathMatcher(std::string_view regex,
               absl::flat_hash_set<std::string> &&match_set)
-      : pattern_re_(regex), verbatim_match_(std::move(match_set)) {}
+      : pattern_re_(regex, RegexOptions()),
+        verbatim_match_(std::move(match_set)) {}
 
   bool Match(std::string_view s) const {
     return verbatim_match_.contains(s) || RE2::FullMatch(s, pattern_re_);
   }
 
  private:
+  // Filenames are just a sequence of bytes, potentially not valid UTF-8.
+  static RE2::Options RegexOptions() {
+    RE2::Options options(RE2::Latin1);
+    options.set_dot_nl(true);
+    return options;
+  }
+
   RE2 pattern_re_;
   absl::flat_hash_set<std::string> verbatim_match_;
 };
@@ -59,7 +67,8 @@ static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
     if (p.contains('*')) {
       const std::string escape_special = RE2::QuoteMeta(p);  // quote everything
       re_or_patterns.emplace_back(  // ... then unquote the pattern back
-        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", ".*/?"},  //
+        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", "(?:.*/)?"},
+                                             {R"(\*\*)", ".*"},
                                              {R"(\*)", "[^/]*"}}));
     } else {
       verbatim_match.insert(p);  // Simple and fast.
@@ -75,13 +84,14 @@ static std::shared_ptr<PathMatcher> MakeDirectoryMatcher(
   absl::flat_hash_set<std::string> verbatim_match;
   for (std::string_view p : patterns) {
     const size_t last_slash = p.find_last_of('/');
-    if (last_slash == std::string_view::npos) {
+    if (p.substr(last_slash + 1).contains("**")) {
+      // Recursive in last segment ('foo/**'): all directories below match.
+    } else if (last_slash == std::string_view::npos) {
       verbatim_match.insert("");
       continue;
+    } else {
+      p = p.substr(0, last_slash);  // Only directories for patterns
     }
-    p = p.substr(0, last_slash);  // Only directories for patterns
-    // TODO: is it allowed to have patterns like '**.txt' with the '**' not
-    // in directory ? Because then we just snipped it off and it won't work...
     if (p.contains('*')) {
       // We need to convert file-patterns into directory patterns. Directories
       // only go up to the last element and we need to match a prefix of
-- 
2.43.0


From 337b2883866a7d49d79a7879b8708bd90150839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 22/64] fix: directory walk: directory rejected under one name
 (symlink) was lost under its other name; tell devices apart; don't list start
 directory again via symlink

---
 bant/util/file-utils.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..bf1421b 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -100,11 +100,9 @@ bool FilesystemPath::is_symlink() const {
 }
 
 // Test if symbolic link points to a directory and return 'true' if it does.
-// Update "out_inode" with the inode at the destination.
-static bool FollowLinkTestIsDir(const FilesystemPath &path, ino_t *out_inode) {
+static bool FollowLinkTestIsDir(const FilesystemPath &path) {
   struct stat s;
   if (stat(path.c_str(), &s) != 0) return false;
-  *out_inode = s.st_ino;
   return S_ISDIR(s.st_mode);
 }
 
@@ -171,7 +169,9 @@ std::vector<FilesystemPath> CollectFilesRecursive(
   const std::function<bool(const FilesystemPath &)> &want_dir_p,
   const std::function<bool(const FilesystemPath &)> &want_file_p) {
   std::vector<FilesystemPath> result_paths;
-  absl::flat_hash_set<ino_t> seen_inode;  // make sure we don't run in circles.
+
+  // Make sure we don't run in circles. Inodes are only unique per device.
+  absl::flat_hash_set<std::pair<dev_t, ino_t>> seen_directory;
 
   std::deque<std::string> directory_worklist;
   directory_worklist.emplace_back(dir.path());
@@ -183,6 +183,15 @@ std::vector<FilesystemPath> CollectFilesRecursive(
     if (!dir) continue;
     const absl::Cleanup dir_closer = [dir]() { closedir(dir); };
 
+    // Only look at what is really visited: a directory not wanted under one
+    // name might be wanted under another (e.g. original vs. symbolic link).
+    struct stat dir_stat;
+    if (fstat(dirfd(dir), &dir_stat) == 0 &&
+        LooksLikeValidInode(dir_stat.st_ino) &&
+        !seen_directory.emplace(dir_stat.st_dev, dir_stat.st_ino).second) {
+      continue;  // Avoid getting caught in symbolic-link loops.
+    }
+
     FilesystemPrewarmCacheRememberDirWasAccessed(current_dir);
     while (dirent *const entry = readdir(dir)) {
       if (strcmp(entry->d_name, ".") == 0 || strcmp(entry->d_name, "..") == 0) {
@@ -190,19 +199,15 @@ std::vector<FilesystemPath> CollectFilesRecursive(
       }
 
       FilesystemPath file_or_dir(current_dir, *entry);
-      ino_t inode = entry->d_ino;  // Might need updating below if entry symlink
 
       // The dirent might already tell us that this is a directory, or, we have
       // to test it ourselves, e.g. if it is a symlink. Minimize stat() calls.
       const bool is_directory =
         (entry->d_type == DT_DIR ||  // Short-path: already known to be a dir
          ((entry->d_type == DT_UNKNOWN || entry->d_type == DT_LNK) &&
-          FollowLinkTestIsDir(file_or_dir, &inode)));
+          FollowLinkTestIsDir(file_or_dir)));
 
       if (is_directory) {
-        if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
-          continue;  // Avoid getting caught in symbolic-link loops.
-        }
         if (want_dir_p(file_or_dir)) {
           directory_worklist.emplace_back(file_or_dir.path());
         }
-- 
2.43.0


From 2f11cb7a87da231788ee692b938f08dc352e0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 23/64] fix: labels: packages with a one letter name are
 packages

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..8f1371e 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -72,7 +72,7 @@ std::string BazelPackage::FullyQualifiedFile(
   str = str.substr(0, maybe_colon);
 
   using absl::StrSplit;
-  if (str.size() < 2) return std::nullopt;
+  if (str.empty() || str == "/" || str == "@") return std::nullopt;
   std::string_view project;
   std::string_view path;
   if (str[0] == '@') {
-- 
2.43.0


From f6921bb1130b480ee8565d3dd2fc4b3b48eae6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 24/64] fix: labels: @//foo denotes the main project also in
 external projects

---
 bant/types-bazel.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 8f1371e..e0678b0 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -137,7 +137,7 @@ std::string BazelPackage::FullyQualifiedFile(
     return std::nullopt;
   }
   BazelPackage parsed_package = package_part.value();
-  if (parsed_package.project.empty()) {
+  if (parsed_package.project.empty() && !package.starts_with('@')) {
     parsed_package.project = project;
   }
   return BazelTarget(parsed_package, target);
@@ -169,7 +169,12 @@ std::string BazelTarget::ToString() const {
 
 std::string BazelTarget::ToStringRelativeTo(
   const BazelPackage &other_package) const {
-  if (other_package != package) return ToString();  // regular handling.
+  if (other_package != package) {
+    if (package.project.empty() && !other_package.project.empty()) {
+      return absl::StrCat("@", ToString());  // Main project, seen from other.
+    }
+    return ToString();  // regular handling.
+  }
   return absl::StrCat(":", target_name);
 }
 
-- 
2.43.0


From 050820cde980e9767db40806e6136306d089fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 25/64] fix: patterns: characters after last '*' in target name
 are literal

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index e0678b0..f63fb12 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -217,7 +217,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From 5b341dd3b7638ece3cf7224929c10d42ae0fa3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 26/64] fix: workspace: look for other version of project in
 directories only

---
 bant/workspace.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bant/workspace.cc b/bant/workspace.cc
index 67b6d4e..349574b 100644
--- a/bant/workspace.cc
+++ b/bant/workspace.cc
@@ -143,12 +143,13 @@ std::optional<BazelWorkspace> LoadWorkspace(Session &session) {
 
         if (!project_dir_found) {
           // Maybe we got a different version ?
-          auto maybe_match =
-            Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"));
-          if (!maybe_match.empty()) {
-            path = maybe_match.front();
-            project_dir_found = path.is_directory() && path.can_read();
+          for (const FilesystemPath &maybe_match :
+               Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"))) {
+            if (!maybe_match.is_directory() || !maybe_match.can_read()) continue;
             // Should we extract version from path ?
+            path = maybe_match;
+            project_dir_found = true;
+            break;
           }
         }
 
-- 
2.43.0


From c5853b9841a19cf78a29278522a1ca015d84ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 27/64] fix: query: keyword arguments of nested calls are not
 attributes of the rule

---
 bant/explore/query-utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index 279975d..f56e56b 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -38,8 +38,7 @@ class TargetFinder : public BaseVoidVisitor {
 
   void VisitFunCall(FunCall *f) final {
     if (in_relevant_call_ != Relevancy::kNotRelevant) {
-      BaseVoidVisitor::VisitFunCall(f);  // Nesting.
-      return;
+      return;  // Nested call: its keyword arguments are not the ones of ours.
     }
     in_relevant_call_ = IsRelevant(f->identifier()->id());
     if (in_relevant_call_ == Relevancy::kNotRelevant) return;
-- 
2.43.0


From 835b5f39e11d39d94adcb1cef328b93446b1b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 28/64] fix: leading dots of directory names are part of the
 package name

---
 bant/frontend/parsed-project.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 8937b68..4fc8f97 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -49,9 +49,9 @@ namespace {
 // ./foo/bar/baz/BUILD.bazel turns into foo/bar/baz
 std::string_view TargetPathFromBuildFile(std::string_view file) {
   file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file
-  while (!file.empty() && (file[0] == '.' || file[0] == '/')) {
-    file.remove_prefix(1);
-  }
+  if (file == ".") return "";
+  if (file.starts_with("./")) file.remove_prefix(2);
+  while (file.starts_with('/')) file.remove_prefix(1);
   return file;
 }
 
-- 
2.43.0


From 39f987d887ae8a2d2e105b5c3c6bc67f3755de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 29/64] fix: dependency graph: find toplevel package; a
 directory named BUILD is no BUILD file

---
 bant/explore/dependency-graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 3620060..4806235 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -58,11 +58,12 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     if (!start_path.empty()) start_path.append("/");
     start_path.append(package.path);
   }
+  if (start_path.empty()) start_path = ".";  // Toplevel package
   const ScopedTimer timer(&stat.duration);
   for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
-    if (test_path.can_read()) return test_path;
+    if (test_path.can_read() && !test_path.is_directory()) return test_path;
   }
   return std::nullopt;
 }
-- 
2.43.0


From d0ec08db157e529d3936845a4ba3dbe52e277d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 30/64] fix: lib-headers: strip_include_prefix, includes are
 relative to package; respect strip_include_prefix with include_prefix

---
 bant/explore/header-providers.cc | 76 ++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a2f36b8..6700ce4 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -80,6 +80,34 @@ static std::string_view LightCanonicalizePath(std::string_view path) {
   return path;
 }
 
+// If "file" is in directory "dir", return remaining path relative to that.
+static std::optional<std::string_view> RemoveDir(std::string_view file,
+                                                 std::string_view dir) {
+  while (dir.ends_with('/')) dir.remove_suffix(1);
+  if (dir.empty()) return file;
+  if (!file.starts_with(dir) || file.length() <= dir.length() ||
+      file[dir.length()] != '/') {
+    return std::nullopt;
+  }
+  return file.substr(dir.length() + 1);
+}
+
+// If "file" (relative to the project) is in directory "dir", return remaining
+// path relative to that. The directory is relative to the package (but also
+// accepted relative to the project) or, with leading '/', to the project.
+static std::optional<std::string_view> PathRelativeTo(
+  const BazelPackage &package, std::string_view file, std::string_view dir) {
+  const bool in_package = !dir.starts_with('/');
+  dir = LightCanonicalizePath(dir);
+  if (dir == ".") dir = "";
+  if (in_package) {
+    const auto in_package_dir = RemoveDir(
+      file, dir.empty() ? package.path : package.QualifiedFile(dir));
+    if (in_package_dir.has_value() || dir.empty()) return in_package_dir;
+  }
+  return RemoveDir(file, dir);
+}
+
 // Convert to format needed for suffix matching.
 static std::string KeyTransform(std::string_view in, bool suffix_index) {
   return suffix_index ? std::string{in.rbegin(), in.rend()}.append("/")
@@ -129,47 +157,41 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
 
       hdrs.insert(hdrs.end(), textual_hdrs.begin(), textual_hdrs.end());
       query::AppendStringList(cc_lib.public_hdrs, hdrs);  // grpc hack.
-      for (const std::string_view header : hdrs) {
+      for (std::string_view header : hdrs) {
         if (absl_string_view_skip && header == "string_view.h") continue;
 
-        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
-          callback(*cc_library, header,
-                   absl::StrCat(cc_lib.include_prefix, "/", header));
-          continue;
-        }
-
         // Assemble the header filename as it can be #include'ed in sources.
         const std::string header_fqn = build_file.package.QualifiedFile(header);
 
         // There can be an include prefix to be removed (typically: "").
-        std::string_view strip_prefix = cc_lib.strip_include_prefix;
-        // In protobuf, strip_include_prefix starts with '/' ???
-        while (strip_prefix.starts_with('/')) strip_prefix.remove_prefix(1);
-        while (strip_prefix.ends_with('/')) strip_prefix.remove_suffix(1);
-
-        const size_t strip_len = strip_prefix.length();
-        if (strip_len > 0 && header_fqn.length() > strip_len &&
-            header_fqn.starts_with(strip_prefix) &&
-            header_fqn[strip_len] == '/') {
-          callback(*cc_library, header, header_fqn.substr(strip_len + 1));
-        } else {
-          callback(*cc_library, header, header_fqn);
+        std::optional<std::string_view> stripped;
+        if (!cc_lib.strip_include_prefix.empty()) {
+          stripped = PathRelativeTo(build_file.package, header_fqn,
+                                    cc_lib.strip_include_prefix);
         }
 
+        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
+          std::string_view prefix = cc_lib.include_prefix;
+          while (prefix.ends_with('/')) prefix.remove_suffix(1);
+          if (header.starts_with(':')) header.remove_prefix(1);
+          callback(*cc_library, header,
+                   absl::StrCat(prefix, "/", stripped.value_or(header)));
+          continue;
+        }
+
+        callback(*cc_library, header,
+                 std::string(stripped.value_or(header_fqn)));
+
         // The same header could also show up with different prefixes, all of
         // them valid. e.g zlib.h and zlib/include/zlib.h. Emit all of these.
 
-        // TODO: double check that the following is what incdirs is supposed to
-        // do. Looks like it works for zlib.
         // Could also show up under shorter path with -I
         const auto incdirs = query::ExtractStringList(cc_lib.includes_list);
         for (const std::string_view dir : incdirs) {
-          std::string prefix(dir);
-          if (!prefix.ends_with('/')) {
-            prefix.append("/");
-          }
-          if (header_fqn.starts_with(prefix)) {
-            callback(*cc_library, header, header_fqn.substr(prefix.length()));
+          const auto in_incdir =
+            PathRelativeTo(build_file.package, header_fqn, dir);
+          if (in_incdir.has_value()) {
+            callback(*cc_library, header, std::string(*in_incdir));
           }
         }
       }
-- 
2.43.0


From dc1e6519f26b0ac3d61420899a18625c43b570de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 31/64] fix: lib-headers: cover aliases of cc_proto_library,
 aliases of aliases, several cc_proto_library for one proto_library

---
 bant/explore/header-providers.cc | 44 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index 6700ce4..39d66ba 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -198,6 +198,19 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
     });
 }
 
+// Add library and everything that is an alias for it (directly or indirectly).
+static void InsertWithAliases(
+  const BazelTarget &library,
+  const OneToN<BazelTarget, BazelTarget> &alias_index,
+  absl::btree_set<BazelTarget> &result) {
+  if (!result.insert(library).second) return;
+  const auto aliases_found = alias_index.find(library);
+  if (aliases_found == alias_index.end()) return;
+  for (const BazelTarget &alias : aliases_found->second) {
+    InsertWithAliases(alias, alias_index, result);
+  }
+}
+
 static void AppendCCLibraryHeaders(
   const ParsedBuildFile &build_file,
   const OneToN<BazelTarget, BazelTarget> &alias_index, std::ostream &info_out,
@@ -207,14 +220,9 @@ static void AppendCCLibraryHeaders(
                     const std::string &header_fqn) {
       const std::string_view canonicalized = LightCanonicalizePath(header_fqn);
       const std::string key = KeyTransform(canonicalized, suffix_index);
-      result[key].insert(cc_library);
       // Also, if there are any aliases in the project for this library,
       // these would also be considered providers of this lib.
-      if (const auto aliases_found = alias_index.find(cc_library);
-          aliases_found != alias_index.end()) {
-        result[key].insert(aliases_found->second.begin(),
-                           aliases_found->second.end());
-      }
+      InsertWithAliases(cc_library, alias_index, result[key]);
     });
 }
 
@@ -230,9 +238,10 @@ static void AppendCCLibraryHeaders(
 //  2. find all used proto_library()s that are mentioned in cc_proto_library()s,
 //     derive the header file from the *.proto file and store the mapping
 //     header->cc_library that we're after.
-static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
-                                      bool reverse,
-                                      ProvidedFromTargetSet &result) {
+static void AppendProtoLibraryHeaders(
+  const ParsedBuildFile &build_file,
+  const OneToN<BazelTarget, BazelTarget> &alias_index, bool reverse,
+  ProvidedFromTargetSet &result) {
   // TODO: once we wire the DependencyGraph through, we can make the look-up
   // in one go. Also we wouldn't be limited to proto_library() and
   // cc_proto_library() having to reside in one package.
@@ -243,10 +252,9 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
   };
 
   // Find all cc_proto_library()s and remember what proto_library() the dep on.
-  // We have the simplified assumption that this is a well-written BUILD and
-  // this is only ever a 1:1 relationship.
+  // Typically, this is a 1:1 relationship, but doesn't have to be.
   // We have two of these: one regular (index:false), one for grpc(index:true)
-  OneToOne<BazelTarget, BazelTarget> proto_lib2cc_proto_lib[2];
+  OneToN<BazelTarget, BazelTarget> proto_lib2cc_proto_lib[2];
   query::FindTargets(
     build_file.ast, kInterestingLibRules, [&](const query::Result &cc_plib) {
       auto target = build_file.package.QualifiedTarget(cc_plib.name);
@@ -262,7 +270,7 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
       for (const std::string_view dep : cc_proto_deps) {
         auto proto_library = BazelTarget::ParseFrom(dep, build_file.package);
         if (!proto_library.has_value()) continue;
-        proto_lib2cc_proto_lib[is_grpc].insert({*proto_library, *target});
+        proto_lib2cc_proto_lib[is_grpc][*proto_library].push_back(*target);
       }
     });
 
@@ -284,8 +292,6 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
           continue;
         }
 
-        const BazelTarget &cc_proto_lib = found_cc_proto_lib->second;
-
         // proto buffer headers for grpc have .grpc.pb.h suffix.
         const std::string_view middle_name = is_grpc ? ".grpc" : "";
 
@@ -308,7 +314,10 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
           for (const std::string_view suffix : {".pb.h", ".proto.h"}) {
             std::string proto_header = absl::StrCat(stem, middle_name, suffix);
             proto_header = build_file.package.QualifiedFile(proto_header);
-            result[KeyTransform(proto_header, reverse)].insert(cc_proto_lib);
+            auto &providers = result[KeyTransform(proto_header, reverse)];
+            for (const BazelTarget &cc_proto_lib : found_cc_proto_lib->second) {
+              InsertWithAliases(cc_proto_lib, alias_index, providers);
+            }
           }
         }
       }
@@ -330,7 +339,8 @@ ProvidedFromTargetSet ExtractHeaderToLibMapping(const ParsedProject &project,
     // provide header files.
     AppendCCLibraryHeaders(*build_file, aliased_by_index,  //
                            info_out, suffix_index, result);
-    AppendProtoLibraryHeaders(*build_file, suffix_index, result);
+    AppendProtoLibraryHeaders(*build_file, aliased_by_index,  //
+                              suffix_index, result);
   }
 
   return result;
-- 
2.43.0


From d03eb4e2170d476d5de4592149b020147b787676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:31 +0000
Subject: [PATCH 32/64] fix: dwyu: don't suggest target as its own dependency

Headers included by other than their literal name in srcs, hdrs (e.g. due to
includes, strip_include_prefix, label with ':', or in textual_hdrs) are found
in the header index as provided by the target itself.
---
 bant/tool/dwyu.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index e5d5919..18138fb 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -247,10 +247,6 @@ DWYUGenerator::DependenciesNeededBySources(
   std::ostream &info_out = session_.info();
   size_t total_size = 0;
 
-  // Already provided targets we don't need to emit anymore.
-  std::set<BazelTarget> already_provided;
-  already_provided.insert(target);
-
   // Log providers if super verbose -vvv
   auto maybe_log = [&](const NamedLineIndexedContent &source,
                        std::string_view inc_file,
@@ -273,6 +269,8 @@ DWYUGenerator::DependenciesNeededBySources(
   // include visible targets.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
+    if (alternatives.contains(target)) return;  // Our own header.
+
     // Add all visible targets.
     auto &result_set = result.emplace_back();
     for (const BazelTarget &t : alternatives) {
-- 
2.43.0


From 34171a831aaccd1276dbc5e3c3b4378afb69a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 33/64] fix: dwyu: don't add testonly dependency to a cc_binary
 that is not testonly

---
 bant/tool/dwyu-internal.h | 1 +
 bant/tool/dwyu.cc         | 9 +++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..17a109c 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -66,6 +66,7 @@ class DWYUGenerator {
   // Various predicates to check targets to make decisions to include/exclude.
   bool IsAlwayslink(const BazelTarget &target) const;
   bool IsTestonlyCompatible(const BazelTarget &target,
+                            const query::Result &target_detail,
                             const BazelTarget &dep) const;
   bool CanSee(const BazelTarget &target, const BazelTarget &dep) const;
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 18138fb..1359427 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -168,6 +168,7 @@ bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
+                                         const query::Result &target_detail,
                                          const BazelTarget &dep) const {
   const auto dependency_detail_found = known_libs_.find(dep);
   if (dependency_detail_found == known_libs_.end()) return true;
@@ -175,11 +176,6 @@ bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
   const query::Result &dep_detail = dependency_detail_found->second;
   if (!dep_detail.testonly) return true;  // non-testonly always compatible.
 
-  const auto target_detail_found = known_libs_.find(target);
-  if (target_detail_found == known_libs_.end()) {
-    return true;  // Should not happen, but let's not flag as issue.
-  }
-  const query::Result &target_detail = target_detail_found->second;
   if (target_detail.testonly || target_detail.rule == "cc_test") {
     return true;  // target and dependency are both tests.
   }
@@ -514,7 +510,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     }
 
     const BazelTarget &need_add = *need_add_alternatives.begin();
-    if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
+    if (CanSee(target, need_add) &&
+        IsTestonlyCompatible(target, details, need_add)) {
       emit_deps_edit_(EditRequest::kAdd, target, "",
                       need_add.ToStringRelativeTo(target.package));
     } else if (session_.flags().verbose > 1) {
-- 
2.43.0


From d64aafcb06739145473759506d1ad8302598e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 34/64] fix: dwyu: don't remove alias of an alwayslink or
 unknown library

---
 bant/tool/dwyu.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 1359427..5af3b6b 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -162,6 +162,14 @@ void DWYUGenerator::InitKnownLibraries() {
 // Various predicates to check
 bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
   auto found = known_libs_.find(target);
+  // An alias is what it stands for. Limited, as aliases could be circular.
+  for (size_t i = 0; i < known_libs_.size(); ++i) {
+    if (found == known_libs_.end() || found->second.rule != "alias") break;
+    const auto actual = BazelTarget::ParseFrom(found->second.actual,  //
+                                               found->first.package);
+    if (!actual.has_value()) return true;
+    found = known_libs_.find(*actual);
+  }
   if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
   // TODO: follow all libs we depend on ?
   return found->second.alwayslink;
-- 
2.43.0


From d6bf3ad56192fe5bf00bbb3363ccfdf55c3c109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 35/64] fix: dwyu: 'keep' comment also protects dependencies
 concatenated from strings

---
 bant/frontend/elaboration.cc   | 10 ++++++----
 bant/frontend/source-locator.h |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 762a6cb..42ca4fc 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -141,7 +141,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         Scalar *right = bin_op->right()->CastAsScalar();
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
-          return ConcatStrings(project_->GetLocation(bin_op->source_range()),
+          return ConcatStrings(bin_op->source_range(),
                                static_cast<StringScalar *>(left),
                                static_cast<StringScalar *>(right));
         }
@@ -184,7 +184,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
-  StringScalar *ConcatStrings(const FileLocation &op_location,
+  StringScalar *ConcatStrings(std::string_view op_range,
                               StringScalar *left, StringScalar *right) {
     std::string content(left->AsString());
     content.append(right->AsString());
@@ -202,8 +202,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
     // Whenever anyone is asking for where this string is coming from, tell
     // them the original location where the operation is coming from.
-    project_->RegisterLocationRange(assembled,
-                                    Make<FixedSourceLocator>(op_location));
+    project_->RegisterLocationRange(
+      assembled,
+      Make<FixedSourceLocator>(project_->GetLocation(op_range),
+                               project_->GetSurroundingLine(op_range)));
 
     const bool is_triple_quoted =
       left->is_triple_quoted() || right->is_triple_quoted();
diff --git a/bant/frontend/source-locator.h b/bant/frontend/source-locator.h
index 9dae04d..1b90b47 100644
--- a/bant/frontend/source-locator.h
+++ b/bant/frontend/source-locator.h
@@ -80,19 +80,22 @@ class FixedSourceLocator : public SourceLocator {
  public:
   // Note: Location (with string_view to filename) must stay valid for the
   // life-time of this object.
-  explicit FixedSourceLocator(const FileLocation &location)
-      : location_(location) {}
+  // If the "surrounding_line" is given, it is the line reported for everything.
+  explicit FixedSourceLocator(const FileLocation &location,
+                              std::string_view surrounding_line = {})
+      : location_(location), surrounding_line_(surrounding_line) {}
 
   FileLocation GetLocation(std::string_view text) const final {
     return location_;  // Unconditional fixed location.
   }
 
   std::string_view GetSurroundingLine(std::string_view text) const final {
-    return text;
+    return surrounding_line_.empty() ? text : surrounding_line_;
   }
 
  private:
   const FileLocation location_;
+  const std::string_view surrounding_line_;
 };
 
 }  // namespace bant
-- 
2.43.0


From f5053a423fe22df852006009248bb0ab9a682ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 36/64] fix: dwyu: don't remove dependencies of a target with
 sources that could not be determined

---
 bant/frontend/ast.h          |  6 ++++++
 bant/frontend/elaboration.cc | 13 +++++++++++--
 bant/tool/dwyu.cc            | 20 +++++++++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index 1f712d0..0d23cd4 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -217,6 +217,11 @@ class List : public Node {
   size_t size() const { return list_.size(); }
   bool empty() const { return list_.size() == 0; }
 
+  // There are more elements in this list, but elaboration could not determine
+  // them (e.g. concatenation with an unknown variable).
+  bool is_incomplete() const { return is_incomplete_; }
+  void set_incomplete() { is_incomplete_ = true; }
+
   void Append(Arena *arena, Node *value) { list_.Append(value, arena); }
   ArenaDeque<Node *>::iterator begin() { return list_.begin(); }
   ArenaDeque<Node *>::iterator end() { return list_.end(); }
@@ -232,6 +237,7 @@ class List : public Node {
   explicit List(Type t) : type_(t) {}
 
   const Type type_;
+  bool is_incomplete_ = false;
   ArenaDeque<Node *> list_;
 };
 
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 42ca4fc..0edf886 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -129,8 +129,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         // If there are undefined values on one side of the expression (e.g.
         // unknown variable), just return the part that is a list - it will
         // be better and more useful downstream.
-        if (left && !right) return left;
-        if (!left && right) return right;
+        if (left && !right) return IncompleteCopy(left);
+        if (!left && right) return IncompleteCopy(right);
 
         if (left && right && left->type() == right->type()) {
           return ConcatLists(left, right);
@@ -171,6 +171,15 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     for (Node *n : *right) {
       result->Append(project_->arena(), n);
     }
+    if (left->is_incomplete() || right->is_incomplete()) {
+      result->set_incomplete();
+    }
+    return result;
+  }
+
+  List *IncompleteCopy(List *list) {
+    List *result = ConcatLists(list, Make<List>(list->type()));
+    result->set_incomplete();
     return result;
   }
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 5af3b6b..52ddc15 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -419,13 +419,31 @@ DWYUGenerator::DependenciesNeededBySources(
   return result;
 }
 
+// Check if all the values of attribute in the given rule are known strings.
+static bool AttributeFullyKnown(const query::Result &details,
+                                std::string_view attribute) {
+  for (Node *arg : *details.node->argument()) {
+    Assignment *const kwarg = arg ? arg->CastAsAssignment() : nullptr;
+    if (!kwarg || !kwarg->maybe_identifier()) continue;
+    if (kwarg->maybe_identifier()->id() != attribute) continue;
+    List *const list = kwarg->value() ? kwarg->value()->CastAsList() : nullptr;
+    if (!list || list->is_incomplete()) return false;
+    for (Node *element : *list) {
+      if (!element || !element->CastAsScalar()) return false;
+    }
+  }
+  return true;
+}
+
 void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
                                          const query::Result &details,
                                          const ParsedBuildFile &build_file) {
   // Looking at the include files the sources reference, map these back
   // to the dependencies that provide them: these are the deps we
   // needed.
-  bool all_header_deps_known = true;
+  // If there are sources we can't determine, there are includes we don't know.
+  bool all_header_deps_known = AttributeFullyKnown(details, "srcs") &&
+                               AttributeFullyKnown(details, "hdrs");
 
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
-- 
2.43.0


From c31e4ad1477e5f08f5f56421c3552bbf1f393e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 37/64] fix: dwyu: don't remove dependency with needed headers
 if there is no replacement

That happened if the only provider was deprecated or not visible, or if
the intersection of alternatives could not be added (ambiguous, testonly).
---
 bant/frontend/elaboration.cc |  4 +--
 bant/tool/dwyu-internal.h    |  3 +-
 bant/tool/dwyu.cc            | 62 ++++++++++++++++++++++++------------
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 0edf886..4d98e49 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -193,8 +193,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
-  StringScalar *ConcatStrings(std::string_view op_range,
-                              StringScalar *left, StringScalar *right) {
+  StringScalar *ConcatStrings(std::string_view op_range, StringScalar *left,
+                              StringScalar *right) {
     std::string content(left->AsString());
     content.append(right->AsString());
     // Escaping is not possible in raw strings, so in the presence of quotes
diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index 17a109c..5a6c740 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -72,7 +72,8 @@ class DWYUGenerator {
 
   // Given a bunch of sources, grep their content (using TryOpenFile() to
   // get it), and look up all targets providing them.
-  // For some, there can be alternatives, so this is a vector of sets.
+  // For some, there can be alternatives, so this is a vector of sets. These
+  // include targets that are not visible.
   // Report in "all_headers_accounted_for", that we found
   // a library for each of the headers we have seen.
   // This is important as only then we can confidently suggest removals in that
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 52ddc15..86b74f6 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -269,23 +269,11 @@ DWYUGenerator::DependenciesNeededBySources(
     }
   };
 
-  // Add alternatives to the result we return, but filtering to only
-  // include visible targets.
+  // Add alternatives to the result we return.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
     if (alternatives.contains(target)) return;  // Our own header.
-
-    // Add all visible targets.
-    auto &result_set = result.emplace_back();
-    for (const BazelTarget &t : alternatives) {
-      if (CanSee(target, t)) {
-        result_set.insert(t);
-      }
-    }
-
-    if (result_set.empty()) {  // Didn't need to add anything: nothing visible
-      result.pop_back();
-    }
+    result.push_back(alternatives);
   };
 
   for (const std::string_view src_name : sources) {
@@ -450,9 +438,23 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.hdrs_list, sources);
 
   // Grep for all includes they use to determine which deps we need
-  auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
-                                                 &all_header_deps_known);
+  const auto header_providers = DependenciesNeededBySources(
+    target, build_file, sources, &all_header_deps_known);
+
+  // To satisfy these, we only consider visible targets.
+  std::vector<absl::btree_set<BazelTarget>> deps_needed;
+  for (const auto &alternatives : header_providers) {
+    absl::btree_set<BazelTarget> visible;
+    for (const BazelTarget &t : alternatives) {
+      if (CanSee(target, t)) visible.insert(t);
+    }
+    if (!visible.empty()) deps_needed.push_back(visible);
+  }
   deps_needed = MinimizeDependencySet(deps_needed);
+
+  // Dependencies the target will certainly have after our edits.
+  absl::btree_set<BazelTarget> final_deps;
+
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
     for (auto it = deps_needed.begin(); it != deps_needed.end(); ++it) {
@@ -467,6 +469,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     return false;
   };
 
+  std::vector<std::pair<BazelTarget, std::string_view>> to_remove;
+
   // Check all the dependencies that the build target requested and strike
   // them off the 'deps_needed' list.
   // Everything deps_needed
@@ -485,6 +489,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     // dependendencies we independently determined from the #includes.
     // If it is not on that list, it is a canidate for removal.
     if (IsNeededInSourcesAndCheckOff(*requested_target)) {
+      final_deps.insert(*requested_target);
       continue;
     }
 
@@ -507,13 +512,12 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     const bool potential_remove_suggestion_safe =
       all_header_deps_known && !IsAlwayslink(*requested_target);
 
-    // Emit the edits.
     if (potential_remove_suggestion_safe) {
       static const LazyRE2 kExcludeVetoUserCommentRe{"#.*keep"};
       const auto line = project_.GetSurroundingLine(dependency_target);
       if (session_.flags().ignore_keep_comment ||
           !RE2::PartialMatch(line, *kExcludeVetoUserCommentRe)) {
-        emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+        to_remove.emplace_back(*requested_target, dependency_target);
       }
     } else if (!all_header_deps_known && session_.flags().verbose > 1) {
       project_.Loc(session_.info(), dependency_target)
@@ -523,6 +527,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   }
 
   // Now, if there is still something we need, add them.
+  std::vector<BazelTarget> to_add;
   for (const auto &need_add_alternatives : deps_needed) {
     // Only possible to auto-add if there is exactly one alternative.
     if (need_add_alternatives.size() > 1) {
@@ -538,13 +543,30 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     const BazelTarget &need_add = *need_add_alternatives.begin();
     if (CanSee(target, need_add) &&
         IsTestonlyCompatible(target, details, need_add)) {
-      emit_deps_edit_(EditRequest::kAdd, target, "",
-                      need_add.ToStringRelativeTo(target.package));
+      to_add.push_back(need_add);
+      final_deps.insert(need_add);
     } else if (session_.flags().verbose > 1) {
       project_.Loc(session_.info(), details.name)
         << ": Would add " << need_add << ", but not visible\n";
     }
   }
+
+  // Emit the edits. What could not be replaced is better than nothing: keep
+  // dependency if it provides a header none of the final dependencies does.
+  for (const auto &[remove_target, dependency_target] : to_remove) {
+    bool still_needed = false;
+    for (const auto &alternatives : header_providers) {
+      still_needed |= alternatives.contains(remove_target) &&
+                      intersect(alternatives, final_deps).empty();
+    }
+    if (!still_needed) {
+      emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+    }
+  }
+  for (const BazelTarget &add : to_add) {
+    emit_deps_edit_(EditRequest::kAdd, target, "",
+                    add.ToStringRelativeTo(target.package));
+  }
 }
 
 // -- Publically visible interface
-- 
2.43.0


From ce635efb3d2d34c60236b6e04133899e9208e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 38/64] fix: dwyu: find all includes

Includes were missed (thus needed dependencies removed) after a quote in a
comment, character literal or an escaped quote, if there was no space before
the opening quote, or with unusual characters in the path; includes in block
comments were considered.
---
 bant/tool/dwyu.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 86b74f6..639dc77 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -572,20 +572,36 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 // -- Publically visible interface
 
 std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
-  static const LazyRE2 kIncRe{
-    R"/((?m)("|^\s*#\s*include\s+"((\.\./)*[0-9a-zA-Z_/+-]+(\.[a-zA-Z]+)*)"))/"};
+  // Comments and quoted quotes are matched so that we do not look inside.
+  static const LazyRE2 kOutsideStringRe{
+    R"/((?m)(//.*|(?s:/\*.*?\*/)|'\\?"'|R"([^()\\\s"]*)\(|"|)/"
+    R"/(^\s*#\s*include\s*"([^"\n]+)"))/"};
+  static const LazyRE2 kInsideStringRe{R"/(((?s:\\.)|"))/"};
 
-  // We don't actually understand strings in c++, so we just pretend by
+  // We don't fully understand strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
   bool best_effort_in_nested_quote_toggle = false;
   std::vector<std::string_view> result;
   std::string_view run = src->content();
   std::string_view header_path;
+  std::string_view raw_delimiter;
   std::string_view outer;
-  while (RE2::FindAndConsume(&run, *kIncRe, &outer, &header_path)) {
+  while (best_effort_in_nested_quote_toggle
+           ? RE2::FindAndConsume(&run, *kInsideStringRe, &outer)
+           : RE2::FindAndConsume(&run, *kOutsideStringRe, &outer,
+                                 &raw_delimiter, &header_path)) {
     if (outer == "\"") {
       best_effort_in_nested_quote_toggle = !best_effort_in_nested_quote_toggle;
-    } else if (!best_effort_in_nested_quote_toggle) {
+    } else if (best_effort_in_nested_quote_toggle) {
+      continue;  // Escape sequence
+    } else if (outer.starts_with('R')) {
+      const std::string raw_end = absl::StrCat(")", raw_delimiter, "\"");
+      if (const size_t pos = run.find(raw_end); pos != run.npos) {
+        run.remove_prefix(pos + raw_end.length());
+      } else {
+        best_effort_in_nested_quote_toggle = true;
+      }
+    } else if (!header_path.empty()) {
       result.push_back(header_path);
     }
   }
-- 
2.43.0


From f8ba5f718bbc68a922a4c96b58bfaa90d47274b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 39/64] fix: dwyu: find includes in sources that are not UTF-8

---
 bant/tool/dwyu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 639dc77..7c0058d 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -575,8 +575,9 @@ std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
   // Comments and quoted quotes are matched so that we do not look inside.
   static const LazyRE2 kOutsideStringRe{
     R"/((?m)(//.*|(?s:/\*.*?\*/)|'\\?"'|R"([^()\\\s"]*)\(|"|)/"
-    R"/(^\s*#\s*include\s*"([^"\n]+)"))/"};
-  static const LazyRE2 kInsideStringRe{R"/(((?s:\\.)|"))/"};
+    R"/(^\s*#\s*include\s*"([^"\n]+)"))/",
+    RE2::Latin1};  // Source is not necessarily UTF-8
+  static const LazyRE2 kInsideStringRe{R"/(((?s:\\.)|"))/", RE2::Latin1};
 
   // We don't fully understand strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
-- 
2.43.0


From 2e03a78ee39eebb163c92924b13e195fca374bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 40/64] fix: table output: escape strings in JSON and CSV as
 these formats require

C escapes as used before (\', octal numbers, \" in CSV) can not be read back.
---
 bant/util/BUILD            |  8 +++++++
 bant/util/json-string.cc   | 46 ++++++++++++++++++++++++++++++++++++++
 bant/util/json-string.h    | 29 ++++++++++++++++++++++++
 bant/util/table-printer.cc | 25 ++++++++++++++-------
 4 files changed, 100 insertions(+), 8 deletions(-)
 create mode 100644 bant/util/json-string.cc
 create mode 100644 bant/util/json-string.h

diff --git a/bant/util/BUILD b/bant/util/BUILD
index a38d8b4..67a8cb2 100644
--- a/bant/util/BUILD
+++ b/bant/util/BUILD
@@ -32,11 +32,19 @@ cc_test(
     ],
 )
 
+cc_library(
+    name = "json-string",
+    srcs = ["json-string.cc"],
+    hdrs = ["json-string.h"],
+    deps = ["@abseil-cpp//absl/strings:str_format"],
+)
+
 cc_library(
     name = "table-printer",
     srcs = ["table-printer.cc"],
     hdrs = ["table-printer.h"],
     deps = [
+        ":json-string",
         "//bant:session",
         "@abseil-cpp//absl/log:check",
         "@abseil-cpp//absl/strings",
diff --git a/bant/util/json-string.cc b/bant/util/json-string.cc
new file mode 100644
index 0000000..07a8d37
--- /dev/null
+++ b/bant/util/json-string.cc
@@ -0,0 +1,46 @@
+// bant - Bazel Navigation Tool
+// Copyright (C) 2024 Henner Zeller <h.zeller@acm.org>
+//
+// This program is free software; you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation; either version 2 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License along
+// with this program; if not, write to the Free Software Foundation, Inc.,
+// 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
+
+#include "bant/util/json-string.h"
+
+#include <string>
+#include <string_view>
+
+#include "absl/strings/str_format.h"
+
+namespace bant {
+std::string JSONString(std::string_view value) {
+  std::string result = "\"";
+  for (const char c : value) {
+    switch (c) {
+    case '"': result.append("\\\""); break;
+    case '\\': result.append("\\\\"); break;
+    case '\n': result.append("\\n"); break;
+    case '\r': result.append("\\r"); break;
+    case '\t': result.append("\\t"); break;
+    default:
+      if (static_cast<unsigned char>(c) < 0x20) {
+        absl::StrAppendFormat(&result, "\\u%04x", c);
+      } else {
+        result.push_back(c);
+      }
+    }
+  }
+  result.append("\"");
+  return result;
+}
+}  // namespace bant
diff --git a/bant/util/json-string.h b/bant/util/json-string.h
new file mode 100644
index 0000000..b96d798
--- /dev/null
+++ b/bant/util/json-string.h
@@ -0,0 +1,29 @@
+// bant - Bazel Navigation Tool
+// Copyright (C) 2024 Henner Zeller <h.zeller@acm.org>
+//
+// This program is free software; you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation; either version 2 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License along
+// with this program; if not, write to the Free Software Foundation, Inc.,
+// 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
+
+#ifndef BANT_UTIL_JSON_STRING_H
+#define BANT_UTIL_JSON_STRING_H
+
+#include <string>
+#include <string_view>
+
+namespace bant {
+// Quoted and escaped string as needed in JSON. Expects UTF-8.
+std::string JSONString(std::string_view value);
+}  // namespace bant
+
+#endif  // BANT_UTIL_JSON_STRING_H
diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index bca57b8..7068145 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -23,12 +23,16 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "absl/log/check.h"
 #include "absl/strings/escaping.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "bant/output-format.h"
+#include "bant/util/json-string.h"
 
 namespace bant {
 namespace {
@@ -152,8 +156,8 @@ class JSonTablePrinter : public TablePrinter {
     out_ << "{";
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << JSONString(headers_[c]) << ": ";
+      out_ << JSONString(row[c]);
     }
     out_ << "}\n";
   }
@@ -165,15 +169,15 @@ class JSonTablePrinter : public TablePrinter {
     size_t c = 0;
     for (c = 0; c < row_prefix.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row_prefix[c]) << "\"";
+      out_ << JSONString(headers_[c]) << ": ";
+      out_ << JSONString(row_prefix[c]);
     }
     if (c != 0) out_ << ", ";
-    out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
+    out_ << JSONString(headers_[c]) << ": ";
     out_ << "[";
     for (size_t rc = 0; rc < repeat_col.size(); ++rc) {
       if (rc != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(repeat_col[rc]) << "\"";
+      out_ << JSONString(repeat_col[rc]);
     }
     out_ << "]}\n";
   }
@@ -185,13 +189,18 @@ class JSonTablePrinter : public TablePrinter {
   const std::vector<std::string> headers_;
 };
 
+// RFC-4180: quotes are doubled, all other characters are literal.
+static std::string CSVString(std::string_view value) {
+  return absl::StrCat("\"", absl::StrReplaceAll(value, {{"\"", "\"\""}}), "\"");
+}
+
 class CSVTablePrinter : public TablePrinter {
  public:
   CSVTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
       : out_(out) {
     for (size_t c = 0; c < headers.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(headers[c]) << "\"";
+      out_ << CSVString(headers[c]);
     }
     out_ << "\n";
   }
@@ -199,7 +208,7 @@ class CSVTablePrinter : public TablePrinter {
   void AddRow(const std::vector<std::string> &row) final {
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << CSVString(row[c]);
     }
     out_ << "\n";
   }
-- 
2.43.0


From 9f9dda71d4462bc92a64fbd2fd6d2ab938b3c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 41/64] fix: lib-headers: don't list headers of libraries not
 matching the pattern

With formats other than native and csv these were listed with an empty list.
---
 bant/explore/header-providers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index 39d66ba..4d1fe42 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -467,6 +467,7 @@ void PrintProvidedSources(Session &session, const std::string &table_header,
     for (const BazelTarget &target : libs) {
       if (pattern.Match(target)) list.push_back(target.ToString());
     }
+    if (list.empty()) continue;  // None of the providers matches pattern.
     printer->AddRowWithRepeatedLastColumn({provided}, list);
   }
   printer->Finish();
-- 
2.43.0


From bccc9c8e57ef0c7d01dd55b02b0f3bac9139abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 42/64] fix: accept documented option -E, don't accept -c,
 which does not exist

---
 bant/bant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..58d8d16 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -149,7 +149,7 @@ int main(int argc, char *argv[]) {
     {"json", OutputFormat::kJSON},     {"graphviz", OutputFormat::kGraphviz},
   };
   int opt;
-  while ((opt = getopt(argc, argv, "C:qo:vhpecbf:r::Vkg:i")) != -1) {
+  while ((opt = getopt(argc, argv, "C:qo:vhpEebf:r::Vkg:i")) != -1) {
     switch (opt) {
     case 'C': {
       std::error_code err;
-- 
2.43.0


From 4a0adef7b852318b78a81baf21281a70365561e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 43/64] fix: unknown options or missing option parameters are a
 failure

---
 bant/bant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 58d8d16..57bf7c0 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -209,7 +209,8 @@ int main(int argc, char *argv[]) {
     } break;
     case 'v': flags.verbose++; break;  // More -v, more detail.
     case 'V': return print_version();
-    default: return usage(argv[0], nullptr, EXIT_SUCCESS);
+    case 'h': return usage(argv[0], nullptr, EXIT_SUCCESS);
+    default: return usage(argv[0], nullptr, EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From 06313fa2890bd8757e99350e4350f5419e9092f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 44/64] fix: empty output format is not csv

---
 bant/bant.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 57bf7c0..3580b08 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -201,8 +201,10 @@ int main(int argc, char *argv[]) {
       [[fallthrough]];
     case 'e': flags.elaborate = true; break;
     case 'f': {
-      auto found = kFormatOutNames.lower_bound(optarg);
-      if (found == kFormatOutNames.end() || !found->first.starts_with(optarg)) {
+      const std::string_view format(optarg);
+      auto found = kFormatOutNames.lower_bound(format);
+      if (format.empty() || found == kFormatOutNames.end() ||
+          !found->first.starts_with(format)) {
         return usage(argv[0], "invalid -f format", EXIT_FAILURE);
       }
       flags.output_format = found->second;
-- 
2.43.0


From d084378c2552c511efcdbded6890f03cf85b8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 45/64] fix: no terminal escapes in output file if stdout is a
 terminal

---
 bant/bant.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 3580b08..54ab1a5 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -138,8 +138,6 @@ int main(int argc, char *argv[]) {
   std::ostream *info_out = &std::cerr;
 
   bant::CommandlineFlags flags;
-  flags.do_color = isatty(STDOUT_FILENO);
-
   bool regex_case_insesitive = false;
 
   using bant::OutputFormat;
@@ -216,6 +214,9 @@ int main(int argc, char *argv[]) {
     }
   }
 
+  // No terminal escapes if written to a file.
+  flags.do_color = (primary_out == &std::cout) && isatty(STDOUT_FILENO);
+
   if (!flags.grep_regex.empty()) {
     if (regex_case_insesitive) {
       flags.grep_regex.insert(0, "(?i)");
-- 
2.43.0


From 9001b08b0d91b4839813b20a088f6bf3fa284017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 46/64] fix: output that could not be written is a failure

---
 bant/bant.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index 54ab1a5..8d1b285 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -235,6 +235,11 @@ int main(int argc, char *argv[]) {
 
   using bant::CliStatus;
   const CliStatus result = RunCliCommand(session, positional_args);
+  primary_out->flush();
+  if (!primary_out->good()) {
+    std::cerr << "Could not write output\n";
+    return EXIT_FAILURE;
+  }
   if (result == CliStatus::kExitCommandlineClarification) {
     session.error() << "\n\n";  // A bit more space to let message stand out.
     return usage(argv[0], nullptr, static_cast<int>(result));
-- 
2.43.0


From 7787b687927ec161e7d0a125a736583a0d76ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 47/64] fix: compilation-db: emit valid JSON

Strings were not escaped, and the trailing commas after the last entry and the
last argument are not allowed in JSON.
---
 bant/tool/BUILD             |  1 +
 bant/tool/compilation-db.cc | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/bant/tool/BUILD b/bant/tool/BUILD
index 6cca9cc..c651cdc 100644
--- a/bant/tool/BUILD
+++ b/bant/tool/BUILD
@@ -112,6 +112,7 @@ cc_library(
         "//bant/explore:query-utils",
         "//bant/frontend:parsed-project",
         "//bant/util:file-utils",
+        "//bant/util:json-string",
         "@abseil-cpp//absl/container:flat_hash_set",
         "@abseil-cpp//absl/strings",
         "@re2",
diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index f3dba56..a5428d1 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -35,6 +35,7 @@
 #include "bant/session.h"
 #include "bant/types-bazel.h"
 #include "bant/util/file-utils.h"
+#include "bant/util/json-string.h"
 #include "bant/workspace.h"
 #include "re2/re2.h"
 
@@ -45,8 +46,7 @@ struct q {
   std::string_view value;
 };
 std::ostream &operator<<(std::ostream &out, const q &quoted_str) {
-  out << "\"" << quoted_str.value << "\"";
-  return out;
+  return out << JSONString(quoted_str.value);
 }
 
 // Common typical options considered for the compiler.
@@ -272,7 +272,7 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
     const std::string abs_src =
       package.FullyQualifiedFile(project.workspace(), src);
     if (!already_written->insert(abs_src).second) continue;
-    out << "  {\n";
+    out << (already_written->size() > 1 ? ",\n" : "") << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
     out << "    " << q{"arguments"} << ": [\n";
     out << "      " << q{"gcc"} << ",\n";
@@ -280,10 +280,10 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
       out << "      " << q{option} << ",\n";
     }
     out << external_inc_json;
-    out << "      " << q{"-c"} << ", " << q{abs_src} << ",\n";
+    out << "      " << q{"-c"} << ", " << q{abs_src} << "\n";
     out << "     ],\n";
     out << "     " << q{"directory"} << ": " << q{cwd} << "\n";
-    out << "  },\n";
+    out << "  }";
   }
 }
 
@@ -319,7 +319,7 @@ static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                 cwd, external_inc_json, &already_written, out);
       });
   }
-  out << "]\n";
+  out << "\n]\n";
 }
 
 static void WriteCompilationFlags(Session &session,
-- 
2.43.0


From 79303693e682b10e56cb6ab20626e665aab0e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 48/64] fix: compilation-db: resolve sources given as labels of
 other packages

---
 bant/tool/compilation-db.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index a5428d1..3d46d18 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -257,6 +257,20 @@ static std::string EncodeFlagsIncludeAsJson(const ParsedProject &project) {
   return out.str();
 }
 
+// Sources are typically files in the package, but can also be labels that refer
+// to a file in another package.
+static std::string ResolveSourceFile(const ParsedProject &project,
+                                     const BazelPackage &package,
+                                     std::string_view src) {
+  if (src.starts_with("//") || src.starts_with("@")) {
+    if (auto label = BazelTarget::ParseFrom(src, package); label.has_value()) {
+      return label->package.FullyQualifiedFile(project.workspace(),
+                                               label->target_name);
+    }
+  }
+  return package.FullyQualifiedFile(project.workspace(), src);
+}
+
 static void WriteCompilationDBEntry(const ParsedProject &project,
                                     const BazelPackage &package,
                                     const query::Result &details,
@@ -269,8 +283,7 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
   query::AppendStringList(details.hdrs_list, sources);
 
   for (const auto src : sources) {
-    const std::string abs_src =
-      package.FullyQualifiedFile(project.workspace(), src);
+    const std::string abs_src = ResolveSourceFile(project, package, src);
     if (!already_written->insert(abs_src).second) continue;
     out << (already_written->size() > 1 ? ",\n" : "") << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
-- 
2.43.0


From 9335be8fc1f31473e3442d3803181519748311be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 49/64] fix: compilation-db: cover external projects only
 reached by alias

---
 bant/tool/compilation-db.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 3d46d18..4e86ebe 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -162,7 +162,7 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
     const BazelPackage &current_package = parsed_package->package;
     query::FindTargets(
       parsed_package->ast,
-      {"cc_library", "cc_binary", "cc_test", "proto_library"},
+      {"cc_library", "cc_binary", "cc_test", "proto_library", "alias"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
         if (!target.has_value()) {
@@ -208,7 +208,9 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
 
         // Now, let's check out the dependencies and see that all of the
         // referenced external projects are covered.
-        const auto deps = query::ExtractStringList(details.deps_list);
+        // Aliases refer to them with their actual target.
+        auto deps = query::ExtractStringList(details.deps_list);
+        if (!details.actual.empty()) deps.push_back(details.actual);
         for (const std::string_view dependency_target : deps) {
           auto requested_dep =
             BazelTarget::ParseFrom(dependency_target, current_package);
-- 
2.43.0


From 90777dc191957b2155ea91f7a9cbcfb31d8657d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 50/64] fix: prewarm cache: don't abort if cache directory can
 not be examined

std::filesystem::is_directory() throws, e.g. if HOME is too long or a symbolic
link loop.
---
 bant/util/filesystem-prewarm-cache.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a0db78d..a2b0fed 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -162,10 +162,10 @@ void FilesystemPrewarmCacheInit(int argc, char *argv[]) {
   const char *homedir = getenv("HOME");
   if (!homedir) return;
   const std::string cache_dir = absl::StrCat(homedir, "/.cache/bant");
-  if (!std::filesystem::is_directory(cache_dir)) return;  // no dir, no cache.
+  std::error_code err;
+  if (!std::filesystem::is_directory(cache_dir, err)) return;  // no cache.
 
   // Make filename unique to match cwd and arguments.
-  std::error_code err;
   auto cwd = std::filesystem::current_path(err);
   uint64_t argument_dependent_hash = std::hash<std::string>()(cwd.string());
   for (int i = 1; i < argc; ++i) {
-- 
2.43.0


From ef3df29a3cf899cc4338042b920d52019e5a560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 51/64] fix: run-clang-tidy-cached: content hash collisions of
 equal and same-named files

The hashes of headers were xor-ed, so two equal headers with the same name or
a header included twice canceled each other out; changes were not noticed.
Equal files of the same name in different directories shared an entry (and
temporary file, which could not be renamed twice).
---
 scripts/run-clang-tidy-cached.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..cd6f53e 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -394,9 +394,10 @@ class FileGatherer {
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes).
+        // accomodate all of them by adding the hashes. Not xor, as identical
+        // files would cancel each other out).
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        header_hashes[just_basename] += hashContent(file + ":" + GetContent(p));
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -407,8 +408,10 @@ class FileGatherer {
     const std::regex inc_re(
         R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
+      // The path is part of it: same content elsewhere might yield different
+      // messages.
       const auto content = GetContent(work_file.first);
-      work_file.second = hashContent(content);
+      std::string to_hash = work_file.first.string() + ":" + content;
       if (kConfig.revisit_if_any_include_changes) {
         // Update the hash with all the hashes from all include files.
         for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
@@ -417,10 +420,11 @@ class FileGatherer {
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            to_hash.append(":").append(ToHex(found->second));
           }
         }
       }
+      work_file.second = hashContent(to_hash);
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
       if (store_.NeedsRefresh(work_file, min_freshness)) {
-- 
2.43.0


From 9aef6022efec545e6d89632bd565efb74f6771e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 52/64] fix: run-clang-tidy-cached: consider all quoted
 includes

Changes in headers included as "../x.h", "a.b.h" or without space were not
noticed.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index cd6f53e..ef6c286 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -406,7 +406,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       // The path is part of it: same content elsewhere might yield different
       // messages.
-- 
2.43.0


From de495cba9817d35962dcefb4af708658f2ae371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 53/64] fix: run-clang-tidy-cached: don't keep results of
 failed invocations

If clang-tidy could not be started, crashed or was killed, its empty or
partial output was kept as result for this content; possibly clean, so never
revisited. An interrupted run without other findings exited with success.
---
 scripts/run-clang-tidy-cached.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index ef6c286..eb9bcf8 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -35,6 +35,7 @@ B=${0%%.cc}; [ "$B" -nt "$0" ] || c++ -std=c++17 -o"$B" "$0" && exec "$B" "$@";
 #include <unistd.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cerrno>
 #include <cinttypes>
 #include <csignal>
@@ -231,10 +232,10 @@ class ClangTidyRunner {
   const fs::path &project_cache_dir() const { return project_cache_dir_; }
 
   // Given a work-queue in/out-file, process it. Using system() for portability.
-  // Empties work_queue.
-  void RunClangTidyOn(ContentAddressedStore &output_store,
+  // Empties work_queue. Returns 'true' if all files could be processed.
+  bool RunClangTidyOn(ContentAddressedStore &output_store,
                       std::list<filepath_contenthash_t> *work_queue) {
-    if (work_queue->empty()) return;
+    if (work_queue->empty()) return true;
     const int kJobs = std::thread::hardware_concurrency();
     std::cerr << work_queue->size() << " files to process...";
 
@@ -242,6 +243,7 @@ class ClangTidyRunner {
     if (!print_progress) std::cerr << "\n";
 
     std::mutex queue_access_lock;
+    std::atomic<int> failed = 0;
     auto clang_tidy_runner = [&]() {
       for (;;) {
         filepath_contenthash_t work;
@@ -266,10 +268,23 @@ class ClangTidyRunner {
         // NOLINTBEGIN
         if (WIFSIGNALED(r) &&
             (WTERMSIG(r) == SIGINT || WTERMSIG(r) == SIGQUIT)) {
+          ++failed;
           break;  // got Ctrl-C
         }
+        // Shell reports if it can't run it or it was killed with >= 126
+        const bool completed = WIFEXITED(r) && WEXITSTATUS(r) < 126;
         // NOLINTEND
+#else
+        const bool completed = (r != -1);
 #endif
+        if (!completed) {
+          ++failed;  // Incomplete output, don't keep.
+          fprintf(stderr, "%s: %s failed\n", work.first.string().c_str(),
+                  clang_tidy_.c_str());
+          std::error_code ignored_error;
+          fs::remove(tmp_out, ignored_error);
+          continue;
+        }
         RepairFilenameOccurences(tmp_out, tmp_out);
         fs::rename(tmp_out, final_out);  // atomic replacement
       }
@@ -283,6 +298,7 @@ class ClangTidyRunner {
     if (print_progress) {
       fprintf(stderr, "     \n");  // Clean out progress counter.
     }
+    return failed == 0 && work_queue->empty();
   }
 
  private:
@@ -539,12 +555,15 @@ int main(int argc, char *argv[]) {
   auto work_list = cc_file_gatherer.BuildWorkList(build_env_latest_change);
 
   // Now the expensive part...
-  runner.RunClangTidyOn(store, &work_list);
+  const bool all_processed = runner.RunClangTidyOn(store, &work_list);
+  if (!all_processed) {
+    std::cerr << "Could not process all files; results are incomplete.\n";
+  }
 
   const std::string detailed_report = cache_prefix + "clang-tidy.out";
   const std::string summary = cache_prefix + "clang-tidy.summary";
   const size_t tidy_count = cc_file_gatherer.CreateReport(
     runner.project_cache_dir(), detailed_report, summary);
 
-  return tidy_count == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
+  return all_processed && tidy_count == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From 735198c2e796df6559a267590d021cef3a8bf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 54/64] fix: run-clang-tidy-cached: project paths are not
 regular expressions

Aborted in directories such as 'c++', with other characters file names
in the report were not fixed up.
---
 scripts/run-clang-tidy-cached.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index eb9bcf8..3eb9a1d 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -350,15 +350,19 @@ class ClangTidyRunner {
   static void RepairFilenameOccurences(const fs::path &infile,
                                        const fs::path &outfile) {
     static const std::regex sFixPathsRe = []() {
+      auto quote = [](const std::string &path) {
+        static const std::regex special(R"([.^$|()\[\]{}*+?\\])");
+        return std::regex_replace(path, special, R"(\$&)");
+      };
       std::string canonicalize_expr = "(^|\\n)(";  // fix names at start of line
       if (kConfig.is_bazel_project) {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += quote(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr += quote(fs::current_path().string()) + "/";  // $(pwd)/
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 3e15433d1189894867a09fc95216054145079b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 55/64] fix: run-clang-tidy-cached: at least use one thread

hardware_concurrency() is zero if it can't be determined; then nothing was
processed and no complaints were reported.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 3eb9a1d..3857ce0 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -236,7 +236,7 @@ class ClangTidyRunner {
   bool RunClangTidyOn(ContentAddressedStore &output_store,
                       std::list<filepath_contenthash_t> *work_queue) {
     if (work_queue->empty()) return true;
-    const int kJobs = std::thread::hardware_concurrency();
+    const int kJobs = std::max(1u, std::thread::hardware_concurrency());
     std::cerr << work_queue->size() << " files to process...";
 
     const bool print_progress = isatty(STDERR_FILENO);
-- 
2.43.0


From 5f0eb0884605637d5291cf512925697af87417a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 56/64] fix: run-clang-tidy-cached: count checks with digits in
 their name

Findings of e.g. cert-err33-c or of aliased checks (listed with comma) were
not counted, so resulted in 'No clang-tidy complaints'.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 3857ce0..af51579 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -466,7 +466,7 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re("(\\[[a-zA-Z][a-zA-Z0-9.,_+-]*\\])\n");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From e391f20d54ceb88b59504e0781fdec2a948a240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 57/64] fix: run-clang-tidy-cached: don't keep results that
 can't be written

With a full disk, the truncated output was kept as result.
---
 scripts/run-clang-tidy-cached.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index af51579..48a5990 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -272,11 +272,12 @@ class ClangTidyRunner {
           break;  // got Ctrl-C
         }
         // Shell reports if it can't run it or it was killed with >= 126
-        const bool completed = WIFEXITED(r) && WEXITSTATUS(r) < 126;
+        bool completed = WIFEXITED(r) && WEXITSTATUS(r) < 126;
         // NOLINTEND
 #else
-        const bool completed = (r != -1);
+        bool completed = (r != -1);
 #endif
+        completed = completed && RepairFilenameOccurences(tmp_out, tmp_out);
         if (!completed) {
           ++failed;  // Incomplete output, don't keep.
           fprintf(stderr, "%s: %s failed\n", work.first.string().c_str(),
@@ -285,7 +286,6 @@ class ClangTidyRunner {
           fs::remove(tmp_out, ignored_error);
           continue;
         }
-        RepairFilenameOccurences(tmp_out, tmp_out);
         fs::rename(tmp_out, final_out);  // atomic replacement
       }
     };
@@ -347,7 +347,8 @@ class ClangTidyRunner {
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
-  static void RepairFilenameOccurences(const fs::path &infile,
+  // Returns 'false' if output could not be written.
+  static bool RepairFilenameOccurences(const fs::path &infile,
                                        const fs::path &outfile) {
     static const std::regex sFixPathsRe = []() {
       auto quote = [](const std::string &path) {
@@ -371,6 +372,8 @@ class ClangTidyRunner {
     const auto in_content = GetContent(infile);
     std::fstream out_stream(outfile, std::ios::out);
     out_stream << std::regex_replace(in_content, sFixPathsRe, "$1");
+    out_stream.close();
+    return !out_stream.fail();
   }
 
   const std::string clang_tidy_;
-- 
2.43.0


From faff0740be5843f77fdce59f5b87ec52df18576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 58/64] fix: run-clang-tidy-cached: quote file names and
 arguments for the shell

With a ' in the name of a file, clang-tidy ran with other arguments and the
output, of nothing, was kept as result.
---
 scripts/run-clang-tidy-cached.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 48a5990..fcd631b 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -181,6 +181,19 @@ std::string ToHex(uint64_t value, int show_lower_nibbles = 16) {
   return out + (16 - show_lower_nibbles);
 }
 
+// Quote for the shell.
+std::string ShellQuote(std::string_view s) {
+  std::string result = "'";
+  for (const char c : s) {
+    if (c == '\'') {
+      result.append("'\\''");
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result.append("'");
+}
+
 // Mapping filepath_contenthash_t to an actual location in the file system.
 class ContentAddressedStore {
  public:
@@ -260,9 +273,9 @@ class ClangTidyRunner {
         const std::string tmp_out = final_out.string() + ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
-        const std::string command = clang_tidy_ + " '" + work.first.string() +
-                                    "'" + clang_tidy_args_ + "> '" + tmp_out +
-                                    "' 2>/dev/null";
+        const std::string command =
+          clang_tidy_ + " " + ShellQuote(work.first.string()) +
+          clang_tidy_args_ + " > " + ShellQuote(tmp_out) + " 2>/dev/null";
         const int r = system(command.c_str());
 #ifdef WIFSIGNALED
         // NOLINTBEGIN
@@ -317,7 +330,7 @@ class ClangTidyRunner {
       result.append(" --extra-arg='").append(arg).append("'");
     }
     for (int i = 1; i < argc; ++i) {
-      result.append(" '").append(argv[i]).append("'");
+      result.append(" ").append(ShellQuote(argv[i]));
     }
     return result;
   }
-- 
2.43.0


From 39307fc0676d373e2d7b79c6cedfcd33b083fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 59/64] fix: run-clang-tidy-cached: temporary files unique to
 the process

If two runs, e.g. in different checkouts, worked on the same content at the
same time, one renamed the temporary file of the other, which then kept an
empty file as result, thus losing all messages.
---
 scripts/run-clang-tidy-cached.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index fcd631b..7445db9 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -270,7 +270,9 @@ class ClangTidyRunner {
           work_queue->pop_front();
         }
         const fs::path final_out = output_store.PathFor(work);
-        const std::string tmp_out = final_out.string() + ".tmp";
+        // Other processes might work on the same content.
+        const std::string tmp_out =
+          final_out.string() + "." + std::to_string(getpid()) + ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
         const std::string command =
-- 
2.43.0


From a4cebb48ab947d4bb3d2fd6f11254f4dc1bb6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 60/64] fix: shell-quote labels in buildozer commands

Labels can contain characters special to the shell, such as ' or $ or &. With
them, commands printed by dwyu and canonicalize were no commands for
buildozer, or something else entirely.
---
 bant/tool/edit-callback.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/bant/tool/edit-callback.cc b/bant/tool/edit-callback.cc
index 77d6a19..d11183c 100644
--- a/bant/tool/edit-callback.cc
+++ b/bant/tool/edit-callback.cc
@@ -18,24 +18,50 @@
 #include "bant/tool/edit-callback.h"
 
 #include <ostream>
+#include <string>
 #include <string_view>
 
 #include "bant/types-bazel.h"
 
 namespace bant {
+namespace {
+// To be used in a string in single quotes in a shell.
+std::string EscapeSingleQuotes(std::string_view s) {
+  std::string result;
+  for (const char c : s) {
+    if (c == '\'') {
+      result.append(R"('\'')");
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
+// Quote target for the shell if it contains characters special to it.
+std::string QuoteTarget(const BazelTarget &target) {
+  static constexpr std::string_view kSpecial = "!\"#$&'()*;<>?[\\]^`{|}~ ";
+  std::string result = target.ToString();
+  if (result.find_first_of(kSpecial) == std::string::npos) return result;
+  return "'" + EscapeSingleQuotes(result) + "'";
+}
+}  // namespace
+
 EditCallback CreateBuildozerDepsEditCallback(std::ostream &out) {
   return [&out](EditRequest edit, const BazelTarget &target,
                 std::string_view before, std::string_view after) {
     switch (edit) {
     case EditRequest::kRemove:
-      out << "buildozer 'remove deps " << before << "' " << target << "\n";
+      out << "buildozer 'remove deps " << EscapeSingleQuotes(before) << "' "
+          << QuoteTarget(target) << "\n";
       break;
     case EditRequest::kAdd:
-      out << "buildozer 'add deps " << after << "' " << target << "\n";
+      out << "buildozer 'add deps " << EscapeSingleQuotes(after) << "' "
+          << QuoteTarget(target) << "\n";
       break;
     case EditRequest::kRename:
-      out << "buildozer 'replace deps " << before << " " << after << "' "
-          << target << "\n";
+      out << "buildozer 'replace deps " << EscapeSingleQuotes(before) << " "
+          << EscapeSingleQuotes(after) << "' " << QuoteTarget(target) << "\n";
       break;
     }
   };
-- 
2.43.0


From 73acdb38ee213e2c81864b691f99e878262771db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 61/64] fix: compilation-db: do not crash if there is no
 current directory

std::filesystem::current_path() throws if the current directory was removed
or is not accessible; without exceptions, that terminates the program.
---
 bant/tool/compilation-db.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 4e86ebe..6fb660f 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -26,6 +26,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
@@ -305,7 +306,13 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
 static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                const BazelPattern &pattern) {
   std::ostream &out = session.out();
-  const std::string cwd = std::filesystem::current_path().string();
+  std::error_code err;
+  const std::string cwd = std::filesystem::current_path(err).string();
+  if (err) {
+    session.error() << "Can't determine current directory: " << err.message()
+                    << "\n";
+    return;
+  }
 
   // Instead of being specific which *.cc file uses which external
   // headers (which would require to recusively follow all its dependencies),
-- 
2.43.0


From d5036b08d5c5625eb299ad922f9f01aeb8d5f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 62/64] fix: dwyu: do not remove dependencies if patterns of a
 glob() are unknown

A glob() with patterns that can not be determined, e.g. because they are in a
variable loaded from elsewhere, was regarded as a glob() without result, so
dwyu suggested to remove all dependencies the sources need.
---
 bant/frontend/elaboration.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 4d98e49..7394f38 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -238,16 +238,28 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return fun;
   }
 
+  static bool AllElementsKnown(List *list) {
+    if (!list || list->is_incomplete()) return false;
+    for (Node *n : *list) {
+      if (!n || !n->CastAsScalar()) return false;
+    }
+    return true;
+  }
+
   Node *HandleGlob(FunCall *fun) {
     // Extract arguments; include and exclude can be positional parameters.
     List *include_list = nullptr;
     List *exclude_list = nullptr;
+    bool includes_known = true;
     int positional_parameter = 0;
     for (Node *arg : *fun->argument()) {
       if (!arg) continue;
       if (!arg->CastAsAssignment()) {
         switch (positional_parameter++) {
-        case 0: include_list = arg->CastAsList(); break;
+        case 0:
+          include_list = arg->CastAsList();
+          includes_known = AllElementsKnown(include_list);
+          break;
         case 1: exclude_list = arg->CastAsList(); break;
         default: break;
         }
@@ -258,6 +270,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
+          includes_known = AllElementsKnown(include_list);
         } else if (kw == "exclude") {
           exclude_list = kwarg->value()->CastAsList();
         }
@@ -285,6 +298,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     // Assemble result list, copying the filesystem paths to arena block and
     // collect in a list.
     List *glob_result_list = Make<List>(List::Type::kList);
+    if (!includes_known) glob_result_list->set_incomplete();
     char *element_begin = glob_strings_blob;
     for (const auto &f : glob_result) {
       const size_t copy_len = f.path().length() - skip_offset;
-- 
2.43.0


From 4e615efa96ee4345c8254db5677631205a1794af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 63/64] fix: dwyu: do not remove dependencies if a glob() could
 not read a directory

The files not seen in that directory might need them.
---
 bant/frontend/elaboration.cc | 10 ++++++----
 bant/util/file-utils.cc      | 18 +++++++++++++++---
 bant/util/file-utils.h       |  6 +++++-
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 7394f38..777421e 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -280,9 +280,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     // Find directory to start the glob()-ing.
     const std::string root_dir =
       package_.FullyQualifiedFile(project_->workspace(), ".");
+    bool all_visited = true;
     const std::vector<FilesystemPath> glob_result =
       MultiGlob(root_dir, query::ExtractStringList(include_list),
-                query::ExtractStringList(exclude_list));
+                query::ExtractStringList(exclude_list), &all_visited);
 
     // Allocate buffer enough to hold all the strings; we don't need the
     // root_dir prefix, so don't account for that part.
@@ -298,7 +299,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     // Assemble result list, copying the filesystem paths to arena block and
     // collect in a list.
     List *glob_result_list = Make<List>(List::Type::kList);
-    if (!includes_known) glob_result_list->set_incomplete();
+    if (!includes_known || !all_visited) glob_result_list->set_incomplete();
     char *element_begin = glob_strings_blob;
     for (const auto &f : glob_result) {
       const size_t copy_len = f.path().length() - skip_offset;
@@ -326,7 +327,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   std::vector<FilesystemPath> MultiGlob(
     std::string_view start_dir,  //
     const std::vector<std::string_view> &include,
-    const std::vector<std::string_view> &exclude) {
+    const std::vector<std::string_view> &exclude, bool *all_visited) {
     bant::Stat &glob_stats =
       session_.GetStatsFor("  - of which glob() walking", "files");
     const ScopedTimer timer(&glob_stats.duration);
@@ -354,7 +355,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
       [&](const FilesystemPath &file) {
         ++checked_files;
         return file_matcher(std::string_view(file.path()).substr(skip_prefix));
-      });
+      },
+      all_visited);
     glob_stats.count += checked_files;
     std::sort(result.begin(), result.end(),
               [](const FilesystemPath &a, const FilesystemPath &b) {
diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index bf1421b..86bc54d 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -23,6 +23,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstddef>
 #include <cstring>
 #include <deque>
@@ -167,8 +168,10 @@ static bool LooksLikeValidInode(ino_t inode) {
 std::vector<FilesystemPath> CollectFilesRecursive(
   const FilesystemPath &dir,
   const std::function<bool(const FilesystemPath &)> &want_dir_p,
-  const std::function<bool(const FilesystemPath &)> &want_file_p) {
+  const std::function<bool(const FilesystemPath &)> &want_file_p,
+  bool *all_visited) {
   std::vector<FilesystemPath> result_paths;
+  if (all_visited) *all_visited = true;
 
   // Make sure we don't run in circles. Inodes are only unique per device.
   absl::flat_hash_set<std::pair<dev_t, ino_t>> seen_directory;
@@ -180,7 +183,10 @@ std::vector<FilesystemPath> CollectFilesRecursive(
     directory_worklist.pop_front();
 
     DIR *const dir = opendir(current_dir.c_str());
-    if (!dir) continue;
+    if (!dir) {
+      if (all_visited) *all_visited = false;
+      continue;
+    }
     const absl::Cleanup dir_closer = [dir]() { closedir(dir); };
 
     // Only look at what is really visited: a directory not wanted under one
@@ -193,7 +199,13 @@ std::vector<FilesystemPath> CollectFilesRecursive(
     }
 
     FilesystemPrewarmCacheRememberDirWasAccessed(current_dir);
-    while (dirent *const entry = readdir(dir)) {
+    for (;;) {
+      errno = 0;  // Only way to distinguish end of directory from error.
+      dirent *const entry = readdir(dir);
+      if (!entry) {
+        if (errno != 0 && all_visited) *all_visited = false;
+        break;
+      }
       if (strcmp(entry->d_name, ".") == 0 || strcmp(entry->d_name, "..") == 0) {
         continue;
       }
diff --git a/bant/util/file-utils.h b/bant/util/file-utils.h
index 794c956..3bc30df 100644
--- a/bant/util/file-utils.h
+++ b/bant/util/file-utils.h
@@ -81,10 +81,14 @@ std::optional<std::string> ReadFileToString(const FilesystemPath &filename);
 // "want_file_p" if file should be included; if so, it is added to "paths".
 //
 // Result only contains files, never directories.
+//
+// If "all_visited" is provided, it is set to 'false' if there was a directory
+// that could not be read, so there might be files missing in the result.
 std::vector<FilesystemPath> CollectFilesRecursive(
   const FilesystemPath &dir,
   const std::function<bool(const FilesystemPath &)> &want_dir_p,
-  const std::function<bool(const FilesystemPath &)> &want_file_p);
+  const std::function<bool(const FilesystemPath &)> &want_file_p,
+  bool *all_visited = nullptr);
 }  // namespace bant
 
 #endif  // BANT_FILE_UTILS_H
-- 
2.43.0


From 354cd609a81d7bafd75712ef380711f6b3ca8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 64/64] fix: do not depend on sequence of directory entries

If a package has both, BUILD and BUILD.bazel, whatever the filesystem happened
to list first was used (or always BUILD, if followed as dependency). Like
bazel, always use BUILD.bazel then. Also the names glob() sees for a directory
reachable through multiple symbolic links depended on that sequence.
---
 bant/explore/dependency-graph.cc |  2 +-
 bant/frontend/parsed-project.cc  | 12 +++++++++++-
 bant/util/file-utils.cc          | 10 +++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 4806235..d3c0278 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -60,7 +60,7 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
   }
   if (start_path.empty()) start_path = ".";  // Toplevel package
   const ScopedTimer timer(&stat.duration);
-  for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
+  for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
     if (test_path.can_read() && !test_path.is_directory()) return test_path;
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 4fc8f97..9826b13 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/parsed-project.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <iostream>
 #include <memory>
@@ -117,7 +118,16 @@ ParsedProject::ParsedProject(BazelWorkspace workspace, bool verbose)
 
 int ParsedProject::FillFromPattern(Session &session,
                                    const BazelPattern &pattern) {
-  const auto build_files = CollectBuildFiles(session, workspace(), pattern);
+  auto build_files = CollectBuildFiles(session, workspace(), pattern);
+  // If there is both, BUILD and BUILD.bazel, in a package, the latter is used
+  // independent of the arbitrary sequence the filesystem lists them.
+  std::sort(build_files.begin(), build_files.end(),
+            [](const FilesystemPath &a, const FilesystemPath &b) {
+              const bool a_preferred = (a.filename() == "BUILD.bazel");
+              const bool b_preferred = (b.filename() == "BUILD.bazel");
+              if (a_preferred != b_preferred) return a_preferred;
+              return a.path() < b.path();
+            });
   for (const FilesystemPath &build_file : build_files) {
     AddBuildFile(session, build_file, pattern.project());
   }
diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 86bc54d..e21696a 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -23,6 +23,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <cerrno>
 #include <cstddef>
 #include <cstring>
@@ -199,6 +200,7 @@ std::vector<FilesystemPath> CollectFilesRecursive(
     }
 
     FilesystemPrewarmCacheRememberDirWasAccessed(current_dir);
+    std::vector<std::string> subdirectories;
     for (;;) {
       errno = 0;  // Only way to distinguish end of directory from error.
       dirent *const entry = readdir(dir);
@@ -221,12 +223,18 @@ std::vector<FilesystemPath> CollectFilesRecursive(
 
       if (is_directory) {
         if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
+          subdirectories.emplace_back(file_or_dir.path());
         }
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
       }
     }
+
+    // If there are multiple names for the same directory, the one we visit
+    // should not depend on the arbitrary sequence the filesystem lists them.
+    std::sort(subdirectories.begin(), subdirectories.end());
+    directory_worklist.insert(directory_worklist.end(), subdirectories.begin(),
+                              subdirectories.end());
   }
   return result_paths;
 }
-- 
2.43.0

