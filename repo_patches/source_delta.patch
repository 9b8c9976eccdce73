From 4fa3644aacbdde7f7a8450b9095140defc887ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 01/34] fix: jump tables with all transitions on one byte value
 overran their slot

---
 src/lib/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 8102def..8e1f57b 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -42,7 +42,7 @@ std::tuple<uint32_t, uint32_t> minAndMaxValues(const std::vector<std::vector<NFA
 
   for (uint32_t i = 0; i < 256; ++i) {
     if (!tbl[i].empty()) {
-      first = i;
+      first = last = i;
       break;
     }
   }
-- 
2.43.0


From 35fb22df0990ebce3653075f39ed5e68a11fcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 02/34] fix: a trailing branch that prefers to match empty was
 not preferred

---
 src/lib/nfabuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 39b4134..8854d88 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -446,6 +446,12 @@ void NFABuilder::finish(const ParseNode& n) {
         NFA::Vertex& final((*Fsm)[v]);
         final.Label = CurLabel;
         final.IsMatch = true;
+
+        // Edges past the insertion point have lower priority than the match
+        // here, so following them could only lead to less-preferred matches.
+        while (Fsm->outDegree(v) > i->second) {
+          Fsm->removeEdge(Fsm->outEdge(v, Fsm->outDegree(v) - 1));
+        }
       }
     }
     // std::cout << "final is " << final << std::endl;
-- 
2.43.0


From ba4eb499191e653a1b3072c4a75938a17ff7111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 03/34] fix: threads duplicating a blocked thread multiplied
 without bound, taking exponential time

---
 include/vm.h   |  4 ++++
 src/lib/vm.cpp | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/vm.h b/include/vm.h
index 26186ad..92f6519 100644
--- a/include/vm.h
+++ b/include/vm.h
@@ -120,6 +120,10 @@ private:
 
   SparseSet CheckLabels;
 
+  // checked states reached by blocked threads, and the starts of the last ones
+  SparseSet BlockedChecks;
+  std::vector<uint64_t> BlockedStarts;
+
   bool LiveNoLabel;
   SparseSet Live;
 
diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..801b49e 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -124,6 +124,7 @@ Vm::Vm(ProgramPtr prog):
   ProgEnd(&(*prog)[prog->size() - 2]), // not end, but penultimate, guaranteed to be a halt; threads die just short of the finish
   First(), Active(1, &(*prog)[0]), Next(),
   CheckLabels(prog->MaxCheck+1),
+  BlockedChecks(prog->MaxCheck+1), BlockedStarts(prog->MaxCheck+1),
   LiveNoLabel(false), Live(prog->MaxLabel+1),
   MatchEnds(prog->MaxLabel+1), MatchEndsMax(0),
   CurHitFn(nullptr), UserData(nullptr)
@@ -164,6 +165,7 @@ void Vm::reset() {
   Next.clear();
 
   CheckLabels.clear();
+  BlockedChecks.clear();
 
   LiveNoLabel = false;
   Live.clear();
@@ -346,6 +348,19 @@ inline bool Vm::_executeEpsilon(const Instruction* const base, ThreadList::itera
         // nothing blocks us, we take the lock
         CheckLabels.insert(instr.Op.Offset);
       }
+      else if (!BlockedChecks.find(instr.Op.Offset)) {
+        BlockedChecks.insert(instr.Op.Offset);
+        BlockedStarts[instr.Op.Offset] = t->Start;
+      }
+      else if (BlockedStarts[instr.Op.Offset] == t->Start) {
+        // we can't lock out threads with later starts, but a thread with
+        // our start got here first, so anything we match it will match
+        t->PC = 0;
+        return false;
+      }
+      else {
+        BlockedStarts[instr.Op.Offset] = t->Start;
+      }
 
       t->advance(InstructionSize<CHECK_HALT_OP>::VAL);
       return true;
@@ -493,6 +508,7 @@ inline void Vm::_cleanup() {
   Next.clear();
 
   CheckLabels.clear();
+  BlockedChecks.clear();
 
   LiveNoLabel = false;
   Live.clear();
-- 
2.43.0


From 60c09ae2251ac408f69911d844d5cd167f5228fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 04/34] fix: jump table entries leading to the start of the
 program were taken for missing transitions

---
 src/lib/compiler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 8e1f57b..fb5d026 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -27,8 +27,11 @@ uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, cons
   // If the jump is to a state that has only a single out edge, and there's
   // no label on the state, then jump forward directly to the out-edge state.
   // i.e., this eliminates an indirect jump... it causes dead code.
+  // We can't do that for a state at address 0, since a zero in a jump table
+  // means that there is no transition.
   if (1 == graph.outDegree(v) &&
-      NOLABEL == graph[v].Label && !graph[v].IsMatch) {
+      NOLABEL == graph[v].Label && !graph[v].IsMatch &&
+      0 != cg.Snippets[graph.outVertex(v, 0)].Start) {
     return cg.Snippets[graph.outVertex(v, 0)].Start;
   }
   else {
-- 
2.43.0


From 33e2526a89fcfe415471859bd19888e9bf5ada5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 05/34] fix: merging a pattern with a loop could reorder
 transitions

---
 src/lib/nfaoptimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/nfaoptimizer.cpp b/src/lib/nfaoptimizer.cpp
index 080e747..06c472c 100644
--- a/src/lib/nfaoptimizer.cpp
+++ b/src/lib/nfaoptimizer.cpp
@@ -196,9 +196,17 @@ void NFAOptimizer::mergeIntoFSM(NFA& dst, const NFA& src) {
     const NFA::VertexDescriptor srcTail = s.second;
     const NFA::VertexDescriptor dstTail = s.first;
 
+    // The edges out of a vertex we've already seen are either done or still
+    // on the stack. Don't hoist them ahead of edges which precede them.
+    const bool seen = Src2Dst[srcTail] != NONE;
+
     Src2Dst[srcTail] = dstTail;
     Dst2Src[dstTail].push_back(srcTail);
 
+    if (seen) {
+      continue;
+    }
+
     for (int32_t i = src.outDegree(srcTail) - 1; i >= 0; --i) {
       Edges.push(StatePair(srcTail, i));
     }
-- 
2.43.0


From 58ea36d96f1f06090520c89ca0ac532eb4b6d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 06/34] fix: jump tables bypassed the checks which keep threads
 from multiplying

---
 src/lib/compiler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index fb5d026..d5cb8ea 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -28,9 +28,11 @@ uint32_t figureOutLanding(const CodeGenHelper& cg, NFA::VertexDescriptor v, cons
   // no label on the state, then jump forward directly to the out-edge state.
   // i.e., this eliminates an indirect jump... it causes dead code.
   // We can't do that for a state at address 0, since a zero in a jump table
-  // means that there is no transition.
+  // means that there is no transition, nor can we skip over a check, which
+  // is what keeps threads from multiplying.
   if (1 == graph.outDegree(v) &&
       NOLABEL == graph[v].Label && !graph[v].IsMatch &&
+      NONE == cg.Snippets[v].CheckIndex &&
       0 != cg.Snippets[graph.outVertex(v, 0)].Start) {
     return cg.Snippets[graph.outVertex(v, 0)].Start;
   }
-- 
2.43.0


From 5142549edb4186feb68ae97067e7dc0860472299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 07/34] fix: alternations with an empty right branch were taken
 for empty, and with an empty left branch were reordered

---
 src/lib/rewriter.cpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 79a6ab1..d33c0c1 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -144,9 +144,6 @@ bool has_only_zero_length_match(const ParseNode* n) {
     return !n->Child.Left || has_only_zero_length_match(n->Child.Left);
 
   case ParseNode::ALTERNATION:
-    // Left has priority, so we don't need to check right.
-    return has_only_zero_length_match(n->Child.Left);
-
   case ParseNode::CONCATENATION:
     return has_only_zero_length_match(n->Child.Left) &&
            has_only_zero_length_match(n->Child.Right);
@@ -168,6 +165,21 @@ bool has_only_zero_length_match(const ParseNode* n) {
   }
 }
 
+bool isSuffix(const ParseNode* n, std::stack<ParseNode*> branch) {
+  for ( ; !branch.empty(); branch.pop()) {
+    const ParseNode* parent = branch.top();
+
+    if (parent->Type == ParseNode::CONCATENATION ? n != parent->Child.Right :
+        parent->Type != ParseNode::ALTERNATION && parent->Type != ParseNode::REGEXP) {
+      return false;
+    }
+
+    n = parent;
+  }
+
+  return true;
+}
+
 bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
 
   // ST{0}Q = ST{0}?Q = T{0}QS = T{0}?Q = S
@@ -252,6 +264,25 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
       n->Child.Rep.Min = 0;
       n->Child.Rep.Max = 1;
     }
+    else if (has_only_zero_length_match(n->Child.Left)) {
+      if (isSuffix(n, branch)) {
+        // convert T{0}|S into T{0}, as nothing can make us try S
+        n->setType(ParseNode::REPETITION);
+        n->Child.Rep.Min = n->Child.Rep.Max = 0;
+      }
+      else {
+        // convert T{0}|S into S??
+        n->Child.Left = n->Child.Right;
+        n->setType(ParseNode::REPETITION_NG);
+        n->Child.Rep.Min = 0;
+        n->Child.Rep.Max = 1;
+      }
+    }
+  }
+  else if (n->Type == ParseNode::REGEXP && n->Child.Left &&
+           has_only_zero_length_match(n->Child.Left)) {
+    // there's nothing left
+    n->Child.Left = 0;
   }
 
   return ret;
-- 
2.43.0


From 270b037e98d5a32d914b8fc27dc263a69eaa8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 08/34] fix: the ends of repeated subexpressions were taken for
 ends of the pattern

---
 src/lib/rewriter.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index d33c0c1..3476481 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -539,9 +539,15 @@ bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& bra
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
+    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    break;
+
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
-    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    // the end of T is a suffix only if T might not need to be repeated
+    if (n->Child.Rep.Min < 2) {
+      ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    }
     break;
 
   case ParseNode::ALTERNATION:
@@ -646,15 +652,23 @@ bool reduceTrailingNongreedyThenEmpty(ParseNode* n, std::stack<ParseNode*>& bran
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
-  case ParseNode::REPETITION:
     ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
     break;
 
+  case ParseNode::REPETITION:
+    // the end of S is a suffix only if S might not need to be repeated
+    if (n->Child.Rep.Min < 2) {
+      ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
+    break;
+
   case ParseNode::REPETITION_NG:
     // replace S{n,m}? with S{n}
     n->setType(ParseNode::REPETITION);
     n->Child.Rep.Max = n->Child.Rep.Min;
-    reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    if (n->Child.Rep.Min < 2) {
+      reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
     ret = true;
     break;
 
-- 
2.43.0


From 71690f85ecb8d4bfb2547edfe76726afe7391bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 09/34] fix: combining consecutive repetitions could change
 which match is preferred

---
 src/lib/rewriter.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 3476481..701f031 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -368,12 +368,42 @@ bool reduceUselessRepetitions(ParseNode* root) {
   return reduceUselessRepetitions(root, branch);
 }
 
+bool matchesFixedNumberOfCharacters(const ParseNode* n) {
+  switch (n->Type) {
+  case ParseNode::CONCATENATION:
+    return matchesFixedNumberOfCharacters(n->Child.Left) &&
+           matchesFixedNumberOfCharacters(n->Child.Right);
+
+  case ParseNode::CHAR_CLASS:
+    // raw bytes might be prefixes of encoded characters
+    return n->Set.Breakout.Bytes.none();
+
+  case ParseNode::DOT:
+  case ParseNode::LITERAL:
+  case ParseNode::BYTE:
+    return true;
+
+  default:
+    return false;
+  }
+}
+
 bool combinable(ParseNode* x, ParseNode* y) {
-  return
-  (
-    (x->Type == ParseNode::REPETITION && y->Type == ParseNode::REPETITION) ||
-    (x->Type == ParseNode::REPETITION_NG && y->Type == ParseNode::REPETITION_NG)
-  ) && *x == *y;
+  if (
+    !((x->Type == ParseNode::REPETITION && y->Type == ParseNode::REPETITION) ||
+      (x->Type == ParseNode::REPETITION_NG && y->Type == ParseNode::REPETITION_NG))
+    || !(*x == *y)
+  ) {
+    return false;
+  }
+
+  // If T can match a string in more than one way, then where the first
+  // repetition ends affects which match is preferred, unless the first
+  // repetition is for a fixed count, or can be empty and is greedy.
+  const uint32_t a = x->Child.Rep.Min, b = x->Child.Rep.Max;
+  return a == b ||
+         (a == 0 && (b == UNBOUNDED || x->Type == ParseNode::REPETITION)) ||
+         matchesFixedNumberOfCharacters(x->Child.Left);
 }
 
 bool combineConsecutiveRepetitions(ParseNode* n, std::stack<ParseNode*>& branch) {
-- 
2.43.0


From 0f9ebf736c01e248aba7992ecbfea1f6d784f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 10/34] fix: parsing an empty pattern dereferenced a null
 pointer

---
 src/lib/re_grammar.ypp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..ae81d4a 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1296,7 +1296,7 @@ namespace {
   }
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
-    yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->first_column = yylloc->last_column = ctx->Text - ctx->TextBegin;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0


From bd674f967a389e2df33a8904c1b8041e14608453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:38 +0000
Subject: [PATCH 11/34] fix: lg_starts_with found nothing in buffers too short
 for the program's filter

---
 src/lib/vm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 801b49e..565c591 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -547,10 +547,11 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
+  const byte* const filterEnd = end - Prog->FilterOff - 1;
 
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  // we can't use the filter if the buffer ends before it does
+  if (beg >= filterEnd ||
+      Prog->Filter[*reinterpret_cast<const uint16_t*>(beg + Prog->FilterOff)])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
-- 
2.43.0


From e6d5943a383fc724b210455033220e8afd912349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 12/34] fix: patterns ending in a truncated UTF-8 sequence were
 read past their end

---
 include/unicode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From c02d89dd581f766509d2fc39f18601c9c972e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 13/34] fix: allow a null error pointer when parsing or adding
 a pattern fails

lg_parse_pattern_slice and lg_add_pattern dereferenced err unconditionally on
failure although it may be null, and the former copied the whole string after
the slice instead of the slice.
---
 src/lib/lightgrep_c_api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..6164ce1 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,8 +101,8 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+  if (result == 0 && err && *err) {
+    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
   }
 
   return result;
@@ -186,7 +186,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
-- 
2.43.0


From 1a07b4fbb23a24b5168ebc7c2a16d9d6cec88935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 14/34] fix: record the source of pattern list errors

lg_add_pattern_list documents that source is used in error messages, but only
set it on errors which addPatternHelper does not produce, so the CLI streamed a
null Source (and lost all further error output) given several keyword files.
---
 src/lib/lightgrep_c_api.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 6164ce1..e3f988c 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -201,11 +201,13 @@ namespace {
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
+                  const char* source,
                   int lnum,
                   LG_Error**& err)
   {
     lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
     if (*err) {
+      (*err)->Source = source ? clone_c_str(source) : nullptr;
       (*err)->Index = lnum;
       err = &((*err)->Next);
       return;
@@ -214,6 +216,7 @@ namespace {
     for (const std::string& enc : encodings) {
       lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
       if (*err) {
+        (*err)->Source = source ? clone_c_str(source) : nullptr;
         (*err)->Index = lnum;
         err = &((*err)->Next);
         continue;
@@ -295,11 +298,11 @@ namespace {
           }
         }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, err);
       }
     }
 
-- 
2.43.0


From f1c40e40cff0f50ce223cf9de366e2a43465fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 15/34] fix: report pattern list failure only when there are
 errors

lg_add_pattern_list returned -1 whenever err was non-null, even on success, and
crashed on a bad pattern when err was null. An exception also replaced the
errors already collected.
---
 src/lib/lightgrep_c_api.cpp | 54 ++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index e3f988c..6c37535 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -232,6 +232,8 @@ namespace {
                      const LG_KeyOptions* defaultOptions,
                      LG_Error** err)
   {
+    LG_Error** const first = err;
+
     std::unique_ptr<PatternHandle,void(*)(PatternHandle*)> ph(
       lg_create_pattern(),
       lg_destroy_pattern
@@ -259,10 +261,8 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
-        if (err) {
-          *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
-        }
+        *err = makeError("no pattern", nullptr, nullptr, source, lnum);
+        err = &((*err)->Next);
         continue;
       }
 
@@ -277,13 +277,11 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
-          if (err) {
-            *err = makeError(
-              "no encoding list",
-              pat.c_str(), nullptr, source, lnum
-            );
-            err = &((*err)->Next);
-          }
+          *err = makeError(
+            "no encoding list",
+            pat.c_str(), nullptr, source, lnum
+          );
+          err = &((*err)->Next);
           continue;
         }
 
@@ -306,7 +304,7 @@ namespace {
       }
     }
 
-    return err ? -1 : 0;
+    return *first ? -1 : 0;
   }
 }
 
@@ -318,25 +316,31 @@ int lg_add_pattern_list(LG_HFSM hFsm,
                         const LG_KeyOptions* defaultOptions,
                         LG_Error** err)
 {
-  // LG_Error* in_err = nullptr;
+  // collect errors here, as err may be null
+  LG_Error* in_err = nullptr;
+  LG_Error* ex_err = nullptr;
 
   const int ret = trapWithRetval(
-    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err]() {
-      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err);
+    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &in_err]() {
+      return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, &in_err);
     },
     -1,
-    err
+    &ex_err
   );
 
-  // if (err) {
-  //   if (in_err) {
-  //     if (*err) {
-  //       // append the error from addPatternList to the chain
-  //       in_err->Next = *err;
-  //     }
-  //     *err = in_err;
-  //   }
-  // }
+  // append any error which stopped addPatternList to those it collected
+  LG_Error** tail = &in_err;
+  while (*tail) {
+    tail = &((*tail)->Next);
+  }
+  *tail = ex_err;
+
+  if (err) {
+    *err = in_err;
+  }
+  else {
+    lg_free_error(in_err);
+  }
 
   return ret;
 }
-- 
2.43.0


From f1babbfd79748bfd4868c0f69f610412e868be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 16/34] fix: confine a bad option column in a pattern list to
 its line

A column which is neither 0 nor 1 threw out of addPatternList, so every later
line was dropped and the error named neither the pattern nor the line.
---
 src/lib/lightgrep_c_api.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 6c37535..8a0f301 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -286,15 +286,25 @@ namespace {
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast&) {
+          *err = makeError(
+            "pattern options must be 0 or 1",
+            pat.c_str(), el.c_str(), source, lnum
+          );
+          err = &((*err)->Next);
+          continue;
+        }
 
         addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
-- 
2.43.0


From 93485977371c434994aa18cb0fe9b8d4ad66d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:02 +0000
Subject: [PATCH 17/34] fix: make the validate command fail when a pattern is
 invalid

The README promises a nonzero exit status then, but it was always zero.
---
 src/cmd/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 50fa9e1..4ed401d 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -422,11 +422,13 @@ void writeGraphviz(const Options& opts) {
   writeGraphviz(opts.openOutput(), *fsm->Impl->Fsm);
 }
 
-void validate(const Options& opts) {
+bool validate(const Options& opts) {
   LgAppCollection col = parsePatterns(opts);
 
   const bool printFilename = opts.CmdLinePatterns.empty() && opts.KeyFiles.size() > 1;
   col.errors->outputErrors(std::cerr, printFilename);
+
+  return !col.getError();
 }
 
 void writeSampleMatches(const Options& opts) {
@@ -496,7 +498,9 @@ int main(int argc, char** argv) {
       writeSampleMatches(opts);
       break;
     case Options::VALIDATE:
-      validate(opts);
+      if (!validate(opts)) {
+        return 1;
+      }
       break;
     case Options::SHOW_VERSION:
       printVersion(std::cout);
-- 
2.43.0


From dbc531c925b1a87c54f42e9aacd80664f5c23743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:02 +0000
Subject: [PATCH 18/34] fix: keep the program file's contents while searching

lg_read_program's buffer must outlive the program, but loadProgram freed it, so
the search and its output read freed memory.
---
 src/cmd/main.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 4ed401d..ab86988 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -154,8 +154,9 @@ void searchRecursively(
   }
 }
 
+// the program refers to buf, so buf must outlive it
 std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>
-loadProgram(const std::string& pfile) {
+loadProgram(const std::string& pfile, std::vector<char>& buf) {
   std::ifstream pin(pfile, std::ios::in | std::ios::binary);
   if (!pin) {
     std::cerr << "Could not open program file " << pfile << std::endl;
@@ -169,7 +170,7 @@ loadProgram(const std::string& pfile) {
   const std::streampos end = stream_size(pin);
   std::cerr << "program file is " << end << " bytes long" << std::endl;
 
-  std::vector<char> buf(end);
+  buf.resize(end);
   pin.read(&buf[0], end);
   pin.close();
 
@@ -290,11 +291,12 @@ void searchInputs(
 }
 
 void search(const Options& opts) {
+  std::vector<char> progBuf;
   std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(nullptr, nullptr);
 
   if (!opts.ProgramFile.empty()) {
     // read a program in from file
-    prog = loadProgram(opts.ProgramFile);
+    prog = loadProgram(opts.ProgramFile, progBuf);
   }
   else {
     LgAppCollection col = parsePatterns(opts);
-- 
2.43.0


From ae2c26fd87116f9b8d3bbacc397a3a6e503ee0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:36 +0000
Subject: [PATCH 19/34] fix: search empty files with --mmap

Mapping an empty file fails, which ended the whole search with an error.
---
 src/cmd/reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..c2ecd37 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <filesystem>
 #include <stdexcept>
 
 #include "reader.h"
@@ -67,7 +68,9 @@ std::future<std::pair<const char*, size_t>> FileReader::read(size_t len){
 }
 
 MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
-  M(path.c_str(), bip::read_only), R(M, bip::read_only),
+  M(path.c_str(), bip::read_only),
+  // an empty file can't be mapped
+  R(std::filesystem::file_size(path) ? bip::mapped_region(M, bip::read_only) : bip::mapped_region()),
   Buf(static_cast<const char*>(R.get_address())), Bend(Buf + R.get_size())
 {
   R.advise(bip::mapped_region::advice_sequential);
-- 
2.43.0


From fdbe8db955ebb859e0238c8aae3559f7121474cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:11 +0000
Subject: [PATCH 20/34] fix: take hit contexts and histogram text from the data
 the hit is in

Hits were decoded against the current block only: those reported when the input
was exhausted against an empty buffer, reading whatever memory preceded it, and
those begun in an earlier block, or whose lines extend beyond the block, against
a part of their data. Memory-mapped input is now one block, as --context relies
on, and with a histogram, data is kept from the start of unfinished hits.
---
 src/cmd/reader.cpp           |  5 +++--
 src/cmd/searchcontroller.cpp | 39 +++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index c2ecd37..7e01919 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -76,8 +76,9 @@ MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
   R.advise(bip::mapped_region::advice_sequential);
 }
 
-std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t len) {
-  len = std::min(len, static_cast<size_t>(Bend - Buf));
+std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t) {
+  // the whole file is one block, so the context of any hit is at hand
+  const size_t len = Bend - Buf;
   std::promise<std::pair<const char*, size_t>> p;
   p.set_value(std::make_pair(Buf, len));
   Buf += len;
diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..4c416c3 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <thread>
 #include <utility>
+#include <vector>
 
 void print_cumulative_stats(double seconds, uint64_t offset) {
   uint64_t units = offset >> 20;
@@ -47,15 +48,24 @@ bool SearchController::searchFile(
 
   const char* buf;
 
+  // data of previous blocks, from the start of the earliest unfinished hit
+  std::vector<char> held;
+
   std::tie(buf, blkSize) = reader.read(BlockSize).get();
   while (blkSize) {
     // start getting next block
     std::future<std::pair<const char*, size_t>> fut = reader.read(BlockSize);
 
     // search cur block
-    hinfo->setBuffer(buf, blkSize, offset);
+    if (held.empty()) {
+      hinfo->setBuffer(buf, blkSize, offset);
+    }
+    else {
+      held.insert(held.end(), buf, buf + blkSize);
+      hinfo->setBuffer(held.data(), held.size(), offset + blkSize - held.size());
+    }
 
-    lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+    const uint64_t unfinished = lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
 
     offset += blkSize;
 
@@ -65,17 +75,26 @@ bool SearchController::searchFile(
       lastTime = thisTime;
     }
 
-    std::tie(buf, blkSize) = fut.get(); // block on i/o thread completion
-  }
-
-  // assert: all data has been read, offset + blkSize == file size,
-  // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
+    const auto [nextBuf, nextSize] = fut.get(); // block on i/o thread completion
+
+    if (nextSize && hinfo->HistInfo.HistogramEnabled) {
+      // hits may yet start at unfinished, and their text is wanted then
+      const size_t keep = unfinished < offset ? offset - unfinished : 0;
+      if (held.empty()) {
+        held.assign(buf + blkSize - keep, buf + blkSize);
+      }
+      else {
+        held.erase(held.begin(), held.end() - keep);
+      }
+    }
 
-  lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+    buf = nextBuf;
+    blkSize = nextSize;
+  }
 
+  // assert: all data has been read, offset == file size, hinfo still has
+  // the last block
   lg_closeout_search(searcher, hinfo, callback);
-  offset += blkSize;  // be sure to count the last block
 
   TotalTime += searchClock.elapsed();
   BytesSearched += offset;
-- 
2.43.0


From 024383753f3cfa60dcbb1067a5c214794e37800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 21/34] fix: count the bad values in the leading context as
 returned

With no leading context (or none in the buffer), lg_read_window returned about
UINT_MAX bad values, and otherwise it counted values which it had trimmed.
---
 src/lib/lightgrep_c_util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..3b30a05 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -168,7 +168,11 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
+    // count only the bad values which are kept
+    bad = std::count_if(
+      cps.begin(), cps.end(),
+      [](const std::pair<int32_t,const byte*>& p) { return p.first < 0; }
+    );
 
     //
     // hit
-- 
2.43.0


From 028e5f73f8045a08d23cd219ee469aa185e8c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 22/34] fix: keep the graph patterns are added to apart from
 the finalized one

Finalizing an automaton labels, determinizes and rearranges its graph,
after which patterns can no longer be merged into it: adding patterns
after lg_create_program(), or creating a second program from the same
automaton, gave corrupt programs.
---
 include/fsmthingy.h   |  1 +
 src/lib/fsmthingy.cpp | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/fsmthingy.h b/include/fsmthingy.h
index 8cf92d1..6c58ffb 100644
--- a/include/fsmthingy.h
+++ b/include/fsmthingy.h
@@ -32,6 +32,7 @@ public:
   NFABuilder Nfab;
   NFAOptimizer Comp;
   NFAPtr Fsm;
+  NFAPtr Unfinalized; // the graph from which Fsm was finalized, if it was
 
   void addPattern(const ParseTree& tree, const char* chain, uint32_t label);
 
diff --git a/src/lib/fsmthingy.cpp b/src/lib/fsmthingy.cpp
index fc40f42..c727fd6 100644
--- a/src/lib/fsmthingy.cpp
+++ b/src/lib/fsmthingy.cpp
@@ -36,7 +36,10 @@ void FSMThingy::addPattern(const ParseTree& tree, const char* chain, uint32_t la
 
   // build the NFA for this pattern
   if (Nfab.build(tree)) {
-    // and merge it into the greater NFA
+    // and merge it into the greater NFA; a finalized one can't be extended
+    if (Unfinalized) {
+      Fsm = std::move(Unfinalized);
+    }
     Comp.pruneBranches(*Nfab.getFsm());
     Comp.mergeIntoFSM(*Fsm, *Nfab.getFsm());
   }
@@ -50,12 +53,23 @@ void FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
     throw std::runtime_error("No valid patterns were parsed");
   }
 
+  // finalize a copy, as there may be more patterns to come
+  if (Unfinalized) {
+    Fsm = Unfinalized;
+  }
+  else {
+    Unfinalized = Fsm;
+  }
+
   if (determinizeDepth && !Fsm->Deterministic) {
     NFAPtr dfa(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
     dfa->TransFac = Fsm->TransFac;
     Comp.subsetDFA(*dfa, *Fsm, determinizeDepth);
     Fsm = dfa;
   }
+  else {
+    Fsm.reset(new NFA(*Unfinalized));
+  }
 
   Comp.labelGuardStates(*Fsm);
 }
-- 
2.43.0


From 134cdbe14ac3be0774609ccf5072d0376694e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 23/34] fix: drop the edges past a final match all at once

Removing them one by one takes hours for patterns such as
a(\w??){3,}? with large character classes.
---
 include/graph.h        | 34 ++++++++++++++++++++++++++++++++++
 src/lib/nfabuilder.cpp |  6 ++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/graph.h b/include/graph.h
index b154faf..523f522 100644
--- a/include/graph.h
+++ b/include/graph.h
@@ -360,6 +360,40 @@ public:
     compact_after_edge(ed);
   }
 
+  // Removing many edges at once is much faster than one by one
+  void removeEdges(const std::vector<EdgeDescriptor>& eds) {
+    if (eds.empty()) {
+      return;
+    }
+
+    std::vector<bool> doomed(Edges.size(), false);
+    for (const EdgeDescriptor ed : eds) {
+      doomed[ed] = true;
+    }
+
+    EList kept;
+    std::vector<EdgeDescriptor> renumbered(Edges.size());
+    for (EdgeDescriptor ed = 0; ed < Edges.size(); ++ed) {
+      renumbered[ed] = kept.size();
+      if (!doomed[ed]) {
+        kept.push_back(Edges[ed]);
+      }
+    }
+    Edges.swap(kept);
+
+    for (VertexData& v : Vertices) {
+      for (auto list : {&v.In, &v.Out}) {
+        const std::vector<EdgeDescriptor> old(Store.begin(*list), Store.end(*list));
+        Store.clear(*list);
+        for (const EdgeDescriptor ed : old) {
+          if (!doomed[ed]) {
+            Store.add(*list, renumbered[ed]);
+          }
+        }
+      }
+    }
+  }
+
   //
   // capacity
   //
diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 8854d88..ac2e0ff 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -434,6 +434,7 @@ void NFABuilder::finish(const ParseNode& n) {
   if (2 == Stack.size()) {
     concatenate(n);
     Fragment& start(Stack.top());
+    std::vector<NFA::EdgeDescriptor> excess;
 
     for (OutListT::const_iterator i(start.OutList.begin()); i != start.OutList.end(); ++i) {
       // std::cout << "marking " << *it << " as a match" << std::endl;
@@ -449,11 +450,12 @@ void NFABuilder::finish(const ParseNode& n) {
 
         // Edges past the insertion point have lower priority than the match
         // here, so following them could only lead to less-preferred matches.
-        while (Fsm->outDegree(v) > i->second) {
-          Fsm->removeEdge(Fsm->outEdge(v, Fsm->outDegree(v) - 1));
+        for (NFA::EdgeSizeType e = i->second; e < Fsm->outDegree(v); ++e) {
+          excess.push_back(Fsm->outEdge(v, e));
         }
       }
     }
+    Fsm->removeEdges(excess);
     // std::cout << "final is " << final << std::endl;
     IsGood = true;
     Stack.pop();
-- 
2.43.0


From 9de564b798ebf5b746290e997fd99815e9f90c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 24/34] fix: sample matches by walking back properly

Having backtracked to a state, matchgen() visited it again, so it became
part of the path twice, giving samples which do not match (e.g. accd for
((a|b)c)+d) or never coming to an end (e.g. for ((xa|xb)c)+d).
---
 src/lib/matchgen.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index bb3afbc..c35cafc 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -75,13 +75,17 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
     seen.assign(g.verticesSize(), 0);
     path.clear();
 
+    bool visit = true;
+
     for (;;) {
-      // visit state v
-      path.push_back(v);
-      ++seen[v];
+      if (visit) {
+        // visit state v
+        path.push_back(v);
+        ++seen[v];
+      }
 
       // if we've reached a match state, produce a match
-      if (g[v].IsMatch) {
+      if (visit && g[v].IsMatch) {
         std::string match;
         for (const NFA::VertexDescriptor w : path) {
           // follow the path, writing the match as we go
@@ -148,11 +152,16 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
       if (scount == 0) {
         // backtrack if all successors exhausted
         path.pop_back();
+        if (path.empty()) {
+          break;
+        }
         v = path.back();
+        visit = false;
       }
       else {
         // otherwise move on to s
         v = s;
+        visit = true;
       }
     }
   }
-- 
2.43.0


From 1d3aaa5294e9134cf71df3f90889d53d88c04fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:10 +0000
Subject: [PATCH 25/34] fix: generate no more than the maximum number of sample
 matches

Each attempt may give several matches, one an extension of the other.
---
 src/lib/matchgen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index c35cafc..696d5c5 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -97,6 +97,9 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
 
         // report the match
         matches.insert(match);
+        if (matches.size() >= maxMatches) {
+          return;
+        }
 
         // should we try to extend the match?
         if (extend(rng)) {
-- 
2.43.0


From 688cde319b18816700ee5ba3508a8faecb22b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 26/34] fix: give and take whole Unicode strings in the Java
 bindings

---
 src/java/jni/jlightgrep.cpp | 83 +++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 12 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2487c1c..54dbba1 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -24,6 +24,7 @@
 #include <limits>
 #include <memory>
 #include <sstream>
+#include <string>
 #include <tuple>
 
 static const char ALL_IS_LOST[] = "Fuck it, Dude. Let's go bowling.";
@@ -246,6 +247,69 @@ static std::unique_ptr<const char,std::function<void(const char*)>> unwrap(JNIEn
   return ptr;
 }
 
+// JNI's own string functions speak "modified UTF-8", which differs from UTF-8
+// for NUL and for everything beyond the BMP, so we convert from and to UTF-16.
+
+static std::string toUTF8(JNIEnv* env, jstring str) {
+  const jsize len = env->GetStringLength(str);
+  std::u16string u16(len, u'\0');
+  env->GetStringRegion(str, 0, len, reinterpret_cast<jchar*>(&u16[0]));
+  throwIfException(env);
+
+  std::string u8;
+  for (size_t i = 0; i < u16.size(); ++i) {
+    uint32_t c = u16[i];
+    if (0xD800 <= c && c < 0xDC00 && i + 1 < u16.size() && 0xDC00 <= u16[i+1] && u16[i+1] < 0xE000) {
+      c = 0x10000 + ((c - 0xD800) << 10) + (u16[++i] - 0xDC00);
+    }
+
+    if (c < 0x80) {
+      u8 += static_cast<char>(c);
+    }
+    else if (c < 0x800) {
+      u8 += static_cast<char>(0xC0 | (c >> 6));
+      u8 += static_cast<char>(0x80 | (c & 0x3F));
+    }
+    else if (c < 0x10000) {
+      u8 += static_cast<char>(0xE0 | (c >> 12));
+      u8 += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
+      u8 += static_cast<char>(0x80 | (c & 0x3F));
+    }
+    else {
+      u8 += static_cast<char>(0xF0 | (c >> 18));
+      u8 += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
+      u8 += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
+      u8 += static_cast<char>(0x80 | (c & 0x3F));
+    }
+  }
+  return u8;
+}
+
+// lightgrep gives us only valid UTF-8
+static jstring fromUTF8(JNIEnv* env, const char* u8) {
+  std::u16string u16;
+  while (*u8) {
+    uint32_t c = static_cast<unsigned char>(*u8++);
+    int more = c < 0xC0 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
+    c &= more ? 0x3F >> more : 0xFF;
+    for ( ; more > 0 && (*u8 & 0xC0) == 0x80; --more) {
+      c = (c << 6) | (*u8++ & 0x3F);
+    }
+
+    if (c < 0x10000) {
+      u16 += static_cast<char16_t>(c);
+    }
+    else {
+      u16 += static_cast<char16_t>(0xD800 + ((c - 0x10000) >> 10));
+      u16 += static_cast<char16_t>(0xDC00 + (c & 0x3FF));
+    }
+  }
+
+  jstring str = env->NewString(reinterpret_cast<const jchar*>(u16.data()), u16.size());
+  throwIfException(env);
+  return str;
+}
+
 static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env, jbyteArray buffer) {
   using namespace std::placeholders;
 
@@ -308,9 +372,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
       env->GetLongField(hPattern, handlePointerField)
     );
 
-// TODO: C++11 stuff.
-
-    std::unique_ptr<const char,std::function<void(const char*)>> pat(unwrap(env, pattern));
+    const std::string pat(toUTF8(env, pattern));
 
     LG_KeyOptions opts{
       env->GetBooleanField(options, keyOptionsFixedStringField) != 0,
@@ -319,9 +381,10 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
     };
 
     // finally actually do something
-    const int ret = lg_parse_pattern(
+    const int ret = lg_parse_pattern_slice(
       ptr,
-      pat.get(),
+      pat.data(),
+      pat.size(),
       &opts,
       &err
     );
@@ -366,11 +429,8 @@ static jobject makePatternInfo(JNIEnv* env, LG_PatternInfo* pinfo) {
   jclass cl = env->FindClass(patternInfoClassName);
   throwIfException(env);
 
-  jstring pat = env->NewStringUTF(pinfo->Pattern);
-  throwIfException(env);
-
-  jstring enc = env->NewStringUTF(pinfo->EncodingChain);
-  throwIfException(env);
+  jstring pat = fromUTF8(env, pinfo->Pattern);
+  jstring enc = fromUTF8(env, pinfo->EncodingChain);
 
   jint idx = pinfo->UserIndex;
 
@@ -815,8 +875,7 @@ static jobject makeHitContext(JNIEnv* env, const LG_Window& outer, const LG_Wind
   jclass cl = env->FindClass(hitContextClassName);
   throwIfException(env);
 
-  jstring decoded = env->NewStringUTF(utf8);
-  throwIfException(env);
+  jstring decoded = fromUTF8(env, utf8);
 
   jobject hc = env->NewObject(
     cl, hitContextCtor, outer.begin, outer.end,
-- 
2.43.0


From 47444005511b61b246c279031d3db3ab01fb0d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 27/34] fix: read programs in the Java bindings

---
 src/java/jni/jlightgrep.cpp                   | 36 ++++++++++++-------
 .../lightgrep/ProgramHandle.java              |  7 ++++
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 54dbba1..d4f875f 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -23,9 +23,11 @@
 #include <functional>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <tuple>
+#include <unordered_map>
 
 static const char ALL_IS_LOST[] = "Fuck it, Dude. Let's go bowling.";
 
@@ -400,6 +402,12 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
   }
 }
 
+// A program which has been read refers to the buffer it was read from. Arrays
+// are moved and collected by the JVM, so such a program gets a copy of its own,
+// which we keep until the program is destroyed.
+static std::mutex programBuffersMutex;
+static std::unordered_map<LG_HPROGRAM, std::unique_ptr<char[]>> programBuffers;
+
 static jobject makeProgramHandle(JNIEnv* env, LG_HPROGRAM hProg) {
   jclass cl = env->FindClass(programHandleClassName);
   throwIfException(env);
@@ -629,7 +637,11 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_com
 }
 
 JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_destroy(JNIEnv* env, jobject hProg) {
-  destroyHandle<LG_HPROGRAM>(env, hProg, lg_destroy_program);
+  destroyHandle<LG_HPROGRAM>(env, hProg, [](LG_HPROGRAM ptr) {
+    std::lock_guard<std::mutex> lock(programBuffersMutex);
+    lg_destroy_program(ptr);
+    programBuffers.erase(ptr);
+  });
 }
 
 JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_sizeImpl(JNIEnv* env, jobject hProg) {
@@ -655,19 +667,19 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
 
 JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
   try {
-    LG_HPROGRAM hProg = nullptr;
-
-    {
-      // convert all of the Java objects to C
-      std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
+    std::unique_ptr<char[]> buf(new char[size]);
+    env->GetByteArrayRegion(buffer, offset, size, reinterpret_cast<jbyte*>(buf.get()));
+    throwIfException(env);
 
-      char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    // finally actually do something
+    LG_HPROGRAM hProg = lg_read_program(buf.get(), (uint32_t) size);
+    if (!hProg) {
+      throwException(env, programExceptionClassName, "Bad program");
+    }
 
-      // finally actually do something
-      hProg = lg_read_program(buf, (uint32_t) size);
-      if (!hProg) {
-        throwException(env, programExceptionClassName, "Bad program");
-      }
+    {
+      std::lock_guard<std::mutex> lock(programBuffersMutex);
+      programBuffers[hProg] = std::move(buf);
     }
 
     return makeProgramHandle(env, hProg);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 3898e58..b2a8a7a 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -7,6 +7,13 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  static native void init();
+
+  // called from native code
+  private ProgramHandle(long ptr) {
+    super(ptr);
+  }
+
   /**
    * @throws IndexOutOfBoundsException
    */
-- 
2.43.0


From ff561feaf883cfc28d13efd4bc42ec7f57d4fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 28/34] fix: refuse a destroyed decoder in the Java bindings

---
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 81166ea..6dc3383 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -29,6 +29,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
     return getHitContextImpl(hDec, buffer, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
@@ -49,6 +50,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
 // FIXME: this code is repeated in several places, factor it out.
     if (buffer.isDirect()) {
-- 
2.43.0


From 7970aba3e9081105cf628fe92a3df5f5bb92b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 29/34] fix: leave the position of read-only buffers alone

---
 .../com/lightboxtechnologies/lightgrep/ContextHandle.java     | 4 ++--
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 2f98b68..c8b9089 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -55,7 +55,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       startsWithImpl(array, position, size, startOffset, callback);
@@ -111,7 +111,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return searchImpl(array, position, size, startOffset, callback);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 6dc3383..5c8b62d 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -67,7 +67,7 @@ public class LGUtil {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return getHitContextImpl(hDec, array, position, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
-- 
2.43.0


From a4c34ab739e13c40d9b86b7e0f8de99f3502cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 30/34] fix: pass whole user indices from Python

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 8bdc9af..0aa557b 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -538,7 +538,7 @@ _LG.lg_create_fsm.restype = c_void_p
 _LG.lg_destroy_fsm.argtypes = [c_void_p]
 _LG.lg_destroy_fsm.restype = None
 
-_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_int, POINTER(POINTER(Err))]
+_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_uint64, POINTER(POINTER(Err))]
 _LG.lg_add_pattern.restype = c_int
 
 _LG.lg_add_pattern_list.argtypes = [c_void_p, c_char_p, c_char_p, POINTER(c_char_p), c_uint, POINTER(KeyOpts), POINTER(POINTER(Err))]
-- 
2.43.0


From 2787ac6471c5b0c20dcadbf6d4536ff553f8ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 31/34] fix: return an offset from Context.search in Python

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 0aa557b..94975de 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -584,7 +584,7 @@ _LG.lg_reset_context.argtypes = [c_void_p]
 _LG.lg_reset_context.restype = None
 
 _LG.lg_search.argtypes = [c_void_p, POINTER(c_char), POINTER(c_char), c_uint64, py_object, _CBType]
-_LG.lg_search.restype = c_void_p
+_LG.lg_search.restype = c_uint64
 
 _LG.lg_closeout_search.argtypes = [c_void_p, py_object, _CBType]
 _LG.lg_closeout_search.restype = None
-- 
2.43.0


From b9806cda557f046f9daa26b30cdf5a4ca73f03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 32/34] fix: keep the buffer a program was read from in Python

---
 pylightgrep/lightgrep/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 94975de..78971cd 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -348,6 +348,8 @@ class Fsm(Handle):
 class Program(Handle):
     def __init__(self, *args):
         if len(args) == 1:
+            # the program does not copy the buffer, so it must be kept alive
+            self.buf = args[0]
             handle = Program.from_buffer(args[0])
 
         elif len(args) == 2:
-- 
2.43.0


From 77a02afece8de4179b44d23b5947c3d9ef2ec1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:04 +0000
Subject: [PATCH 33/34] fix: let go of hits after their callbacks in the Java
 bindings

---
 src/java/jni/jlightgrep.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index d4f875f..21a73ab 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -768,6 +768,8 @@ static void callbackShim(void* userData, const LG_SearchHit* const hit) {
   throwIfException(env);
 
   env->CallVoidMethod(cb, hitCallbackCallback, hobj);
+  // there may be any number of hits before we return to Java
+  env->DeleteLocalRef(hobj);
   throwIfException(env);
 }
 
-- 
2.43.0


From afd3d06ff8168d28228ba8da9745aeb51658546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 34/34] fix: adding a pattern which was never parsed, or failed
 to parse, is an error

lg_add_pattern() read through an uninitialised or null parse tree.
---
 include/parsetree.h         | 2 +-
 src/lib/lightgrep_c_api.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/parsetree.h b/include/parsetree.h
index 89a0b4d..abbcc5e 100644
--- a/include/parsetree.h
+++ b/include/parsetree.h
@@ -28,7 +28,7 @@ uint32_t nodesUpperBound(const std::string& expr);
 
 class ParseTree {
 public:
-  ParseNode* Root;
+  ParseNode* Root = nullptr;
 
   template <class... Args>
   ParseNode* add(Args&&... args) {
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 8a0f301..9430b5e 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -178,6 +178,10 @@ int lg_add_pattern(LG_HFSM hFsm,
     setError(err, "encoding string pointer was null. Please specify a valid encoding.");
     return -3;
   }
+  if (!hPattern->Tree.Root) {
+    setError(err, "hPattern holds no parsed pattern. Use lg_parse_pattern() first.");
+    return -2;
+  }
   int result = trapWithRetval(
     [hFsm, hPattern, encoding, userIndex]() {
       return addPattern(hFsm, hPattern, encoding, userIndex);
-- 
2.43.0

