From c7324b6fbc4c39fd99ebbaf694e6fe38d941ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 01/41] fix: flatten elements of Boolean array arguments of
 reified predicates in mixed context

A predicate over an array of Booleans (such as xorall) that is used in a
positive or negative context passed that context on to the elements of the
array, so that a disjunction or implication among them was only encoded in one
direction and the FlatZinc accepted assignments violating the model.
---
 lib/flatten/flatten_call.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e654c10..974e9c6 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -758,7 +758,9 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          Expression::ann(c->decl()->param(i))
                              .contains(env.constants.ctx.promise_antitone)) {
                 argctx.b = -transfer_ctx;
-              } else if (Expression::type(c->arg(i)).isbool()) {
+              } else if (Expression::type(c->arg(i)).isbool() ||
+                         (c->type().isbool() && transfer_ctx != C_ROOT)) {
+                // Elements of a Boolean array passed to a predicate can occur in any context
                 argctx.b = C_MIX;
               }
             } else if (Expression::type(c->arg(i)).bt() == Type::BT_INT) {
-- 
2.43.0


From 1286955635943cf71fc36addf45c492758081d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 02/41] fix: make reified iffall over variables compile

iffall was defined by array_bool_xor, which has no reified version, so any use
of iffall on variables outside the root context failed to compile. Define it
through xorall, which has one.
---
 share/minizinc/std/stdlib/stdlib_logic.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_logic.mzn b/share/minizinc/std/stdlib/stdlib_logic.mzn
index 9514d5d..811c246 100644
--- a/share/minizinc/std/stdlib/stdlib_logic.mzn
+++ b/share/minizinc/std/stdlib/stdlib_logic.mzn
@@ -111,7 +111,7 @@ function bool: iffall(array [$T] of opt bool: x) :: promise_commutative =
   exists (y in array1d(x)) (absent(y)) \/ iffall (y in array1d(x)) (deopt(y));
 /** @group stdlib.builtins.logic Return truth value of \(\text{true}\oplus (\oplus_i \a x[i])\) */
 function var bool: iffall(array [$T] of var bool: x) :: promise_commutative =
-  array_bool_xor(array1d(x) ++ [true]);
+  xorall(array1d(x) ++ [true]);
 /** @group stdlib.builtins.logic Return truth value of \(\text{true}\oplus (\oplus_i \a x[i])\) */
 function var bool: iffall(array [$T] of var opt bool: x) :: promise_commutative =
   exists (y in array1d(x)) (absent(y)) \/ iffall (y in array1d(x)) (deopt(y));
-- 
2.43.0


From 19ec264fbaeec23e4d40a9ca774e3991957efd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 03/41] fix: keep the definedness of x in constraints x in S

Flattening x in S with a fixed set S returned the domain comparison alone when
the domain of x decided it, or when S was unbounded, and dropped the condition
that x itself is defined.
---
 lib/flatten/flatten_binop.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 8e0593c..c32e91a 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1518,7 +1518,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
   }
 
   if (isBuiltin && Expression::type(e1.r()).isPar() && Expression::isa<Id>(e0.r()) &&
-      (bot == BOT_IN || bot == BOT_SUBSET)) {
+      (bot == BOT_IN || bot == BOT_SUBSET) && istrue(env, e0.b()) && istrue(env, e1.b())) {
     if (Expression::type(e0.r()).bt() == Type::BT_INT &&
         flatten_dom_constraint<IntLit>(env, ctx, Expression::cast<Id>(e0.r())->decl(), e1.r(), r,
                                        ret)) {
@@ -1544,19 +1544,11 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
       {
         GCLock lock;
         IntSetVal* dom = eval_intset(env, e1.r());
-        has_infinity = dom->min(0).isMinusInfinity() || dom->max(dom->size() - 1).isPlusInfinity();
+        has_infinity = !dom->empty() && (dom->min(0).isMinusInfinity() ||
+                                         dom->max(dom->size() - 1).isPlusInfinity());
       }
       if (has_infinity) {
-        KeepAlive ka;
-        {
-          GCLock lock;
-          Call* call =
-              Call::a(Expression::loc(bo), env.constants.ids.mzn_set_in_internal, {e0.r(), e1.r()});
-          call->type(Type::varbool());
-          call->decl(env.model->matchFn(env, call, false));
-          ka = call;
-        }
-        return flat_exp(env, ctx, ka(), r, b);
+        callid = env.constants.ids.mzn_set_in_internal;
       }
     }
     // Otherwise translate to set_in as normal
-- 
2.43.0


From aa1edcd440ee9e48435d11c0c36b26b95d136932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 04/41] fix: keep the definedness of terms that cancel out of
 linear expressions

Simplifying a linear expression dropped terms whose coefficients cancel (or are
multiplied by zero) before they were flattened, so that, for example,
not (1 div x - 1 div x + y <= 0) was not satisfied by x = 0.
---
 lib/flatten/flatten_binop.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index c32e91a..dc09eaa 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -18,6 +18,7 @@
 #include <minizinc/type.hh>
 #include <minizinc/values.hh>
 
+#include <algorithm>
 #include <cassert>
 #include <list>
 #include <vector>
@@ -309,7 +310,18 @@ KeepAlive mklinexp(EnvI& env, typename LinearTraits<Lit>::Val c0,
   Val constval = 0;
   collect_linexps<Lit>(env, c0, e0, coeffs, vars, constval);
   collect_linexps<Lit>(env, c1, e1, coeffs, vars, constval);
+  const std::vector<KeepAlive> terms = vars;
   simplify_lin<Lit>(coeffs, vars, constval);
+  // Terms that cancel out may still be undefined: keep them (with a zero coefficient) until they
+  // have been flattened
+  for (const auto& t : terms) {
+    if (!Expression::isa<Id>(t()) &&
+        std::none_of(vars.begin(), vars.end(),
+                     [&](const KeepAlive& v) { return Expression::equal(v(), t()); })) {
+      coeffs.push_back(0);
+      vars.push_back(t);
+    }
+  }
   KeepAlive ka;
   if (coeffs.empty()) {
     ka = LinearTraits<Lit>::newLit(constval);
-- 
2.43.0


From dad91473c3dd22db91c00b3064dfe20d1517e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 05/41] fix: card of the empty set literal

---
 lib/builtins.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6c26c53..8db731a 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1646,6 +1646,7 @@ IntVal b_card(EnvI& env, Call* call) {
   }
   auto* sv = call->arg(0);
   switch (Expression::type(sv).bt()) {
+    case Type::BT_BOT:
     case Type::BT_INT:
     case Type::BT_BOOL: {
       IntSetVal* isv = eval_intset(env, sv);
-- 
2.43.0


From 3fb6cf1149af276e9d4a14bd024b805095514e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 06/41] fix: remove commutative calls from the CSE map under
 their normalised key

---
 lib/flatten.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index c226993..7d86166 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1029,7 +1029,17 @@ EnvI::CSEMap::iterator EnvI::cseMapFind(Expression* e) {
   }
   return lookup(e);
 }
-void EnvI::cseMapRemove(Expression* e) { _cseMap.remove(e); }
+void EnvI::cseMapRemove(Expression* e) {
+  Call* c = Expression::dynamicCast<Call>(e);
+  if ((c != nullptr) && c->decl() != nullptr &&
+      c->decl()->ann().contains(constants.ann.promise_commutative)) {
+    // entries for commutative functions are stored under their normalised call
+    GCLock lock;
+    _cseMap.remove(Call::commutativeNormalized(*this, c));
+    return;
+  }
+  _cseMap.remove(e);
+}
 EnvI::CSEMap::iterator EnvI::cseMapEnd() { return _cseMap.end(); }
 void EnvI::dump() {
   struct EED {
-- 
2.43.0


From c61f6603c266f475edce27a07fcee18c05dcbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 07/41] fix: comparisons of tuples and records under negation
 and with undefined operands

---
 lib/flatten/flatten_binop.cpp | 72 ++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index dc09eaa..ab07665 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1336,7 +1336,7 @@ ArrayLit* struct_as_table(EnvI& env, ArrayLit* table, ArrayLit* obj) {
 }
 
 EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expression* rhs,
-                     bool doubleNeg, VarDecl* r, VarDecl* b) {
+                     bool doubleNeg, std::vector<EE>& ees, VarDecl* r, VarDecl* b) {
   KeepAlive rewrite = nullptr;
   ArrayLit* tupLHS = eval_array_lit(env, lhs);
   ArrayLit* tupRHS = eval_array_lit(env, rhs);
@@ -1402,41 +1402,18 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
         c->decl(env.model->matchFn(env, c, false));
         rewrite = c;
       } else {
-        // Create temp bool variables for lex decomposition
-        auto* bool_ti = new TypeInst(Location().introduce(), Type::varbool(1));
-        auto* range = new SetLit(Location().introduce(), IntSetVal::a(1, tupLHS->size()));
-        bool_ti->setRanges({new TypeInst(Location().introduce(), Type::parint(), range)});
-        auto* b_decl = new VarDecl(Location().introduce(), bool_ti, env.genId());
-        b_decl->type(Type::varbool(1));
-        std::vector<Expression*> b(tupLHS->size());
-        for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-          b[i] = new ArrayAccess(Location().introduce(), b_decl->id(), {IntLit::a(i + 1)});
-          Expression::type(b[i], Type::varbool());
-        }
-        // Create the implications
-        std::vector<Expression*> impls(tupLHS->size());
-        for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-          auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i]);
-          auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i]);
-          if (i < tupLHS->size() - 1) {
-            auto* _or = new_binop(le, BOT_OR, b[i + 1]);
-            auto* _and = new_binop(lq, BOT_AND, _or);
-            impls[i] = new_binop(b[i], BOT_IMPL, _and);
-          } else if (bot == BOT_LQ) {
-            impls[i] = new_binop(b[i], BOT_IMPL, lq);
+        // Nested lex decomposition: lhs.i <= rhs.i /\ (lhs.i < rhs.i \/ (... i+1 ...))
+        Expression* lex = nullptr;
+        for (unsigned int i = tupLHS->size(); (i--) != 0U;) {
+          if (lex == nullptr) {
+            lex = new_binop((*tupLHS)[i], bot, (*tupRHS)[i]);
           } else {
-            impls[i] = new_binop(b[i], BOT_IMPL, le);
+            auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i]);
+            auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i]);
+            lex = new_binop(lq, BOT_AND, new_binop(le, BOT_OR, lex));
           }
         }
-        auto* al = new ArrayLit(Location().introduce(), impls);
-        al->type(Type::varbool(1));
-        auto* forall = Call::a(Location().introduce(), env.constants.ids.forall, {al});
-        forall->type(Type::varbool());
-        forall->decl(env.model->matchFn(env, forall, false, true));
-        // Wrap in let
-        auto* let = new Let(Location().introduce(), {b_decl}, new_binop(b[0], BOT_AND, forall));
-        let->type(Type::varbool());
-        rewrite = let;
+        rewrite = lex;
       }
     } break;
     case BOT_IN: {
@@ -1459,7 +1436,32 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
     default:
       throw InternalError("Tuple operator rewrite not defined");
   }
-  return flat_exp(env, ctx, rewrite(), r, b);
+  Ctx rewriteCtx = ctx;
+  if (doubleNeg) {
+    // bot is already the complement of the operator in the model
+    rewriteCtx.b = -ctx.b;
+    rewriteCtx.neg = !ctx.neg;
+  }
+  if (istrue(env, ees[0].b()) && istrue(env, ees[1].b())) {
+    return flat_exp(env, rewriteCtx, rewrite(), r, b);
+  }
+  // Conjoin the positive reification of the operator with the definedness of the
+  // operands (conj() negates each of the elements if ctx.neg is set)
+  if (rewriteCtx.neg) {
+    rewriteCtx.b = -rewriteCtx.b;
+    rewriteCtx.neg = false;
+  }
+  EE ret;
+  ees[2].b = flat_exp(env, rewriteCtx, rewrite(), nullptr, env.constants.varTrue).r;
+  if (doubleNeg) {
+    GCLock lock;
+    Type t = Expression::type(ees[2].b());
+    ees[2].b = new UnOp(Location().introduce(), UOT_NOT, ees[2].b());
+    Expression::type(ees[2].b(), t);
+  }
+  ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+  ret.r = conj(env, r, ctx, ees);
+  return ret;
 }
 
 EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expression* e, VarDecl* r,
@@ -1611,7 +1613,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
     if ((Expression::type(e0.r()).istuple() || Expression::type(e0.r()).isrecord()) &&
         (isBuiltin || (bot == BOT_IN && check_struct_table(env, Expression::type(e0.r()),
                                                            Expression::type(e1.r()))))) {
-      return rewrite_struct_op(env, ctx, e0.r(), bot, e1.r(), doubleNeg, r, b);
+      return rewrite_struct_op(env, ctx, e0.r(), bot, e1.r(), doubleNeg, ees, r, b);
     }
     args.push_back(e0.r);
     args.push_back(e1.r);
-- 
2.43.0


From 7e31ec7f0d20b24fb47ac2fee25e93d1dc3f96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 08/41] fix: output of variables aliased through a chain to a
 variable with a reverse mapping

---
 lib/output.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/output.cpp b/lib/output.cpp
index e899639..00d6c9c 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -2114,6 +2114,12 @@ void finalise_output(EnvI& e) {
 
                 bool needOutputAnn = true;
                 if (Id* ident = Expression::dynamicCast<Id>(reallyFlat->e())) {
+                  // The reverse mapper may be at the end of a chain of aliases
+                  while (e.reverseMappers.find(ident) == e.reverseMappers.end() &&
+                         ident->decl() != nullptr && ident->decl()->e() != nullptr &&
+                         Expression::isa<Id>(ident->decl()->e())) {
+                    ident = Expression::cast<Id>(ident->decl()->e());
+                  }
                   if (e.reverseMappers.find(ident) != e.reverseMappers.end()) {
                     needOutputAnn = false;
                     remove_is_output(vd);
-- 
2.43.0


From 923915704116c67b049e174622a993ec9e8ccc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 09/41] fix: do not delete a variable another one was unified
 with

---
 lib/optimize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/optimize.cpp b/lib/optimize.cpp
index c6a9e42..ae9b083 100644
--- a/lib/optimize.cpp
+++ b/lib/optimize.cpp
@@ -438,7 +438,9 @@ void remove_deleted_items(EnvI& envi, std::vector<VarDecl*>& deletedVarDecls) {
   auto& m = *envi.flat();
   while (!deletedVarDecls.empty()) {
     envi.checkCancel();
-    VarDecl* cur = deletedVarDecls.back();
+    // If the variable has been unified with another one, the item that would be
+    // removed is the one of that other variable
+    VarDecl* cur = deletedVarDecls.back()->id()->decl();
     deletedVarDecls.pop_back();
     if (can_remove_fzn_vardecl(envi, cur)) {
       auto cur_idx = envi.varOccurrences.idx.find(cur->id());
-- 
2.43.0


From dc2fb44db3fd03e0cd6b2b4b63dd4436d26be238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 10/41] fix: pow of variables with zero and negative exponents
 in their bounds in the linear library

---
 share/minizinc/linear/redefinitions.mzn | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/linear/redefinitions.mzn b/share/minizinc/linear/redefinitions.mzn
index fafd1ff..b0a2cc2 100644
--- a/share/minizinc/linear/redefinitions.mzn
+++ b/share/minizinc/linear/redefinitions.mzn
@@ -348,7 +348,13 @@ predicate float_times(var float: x, var float: y, var float: z) =
 predicate int_pow(var int: x, var int: y, var int: z) =
   let {
     array [int, int] of int: x2y =
-      array2d(lb(x)..ub(x), lb(y)..ub(y), [pow(X, Y) | X in lb(x)..ub(x), Y in lb(y)..ub(y)]);
+      array2d(
+        lb(x)..ub(x),
+        lb(y)..ub(y),
+        [
+          if X = 0 /\ Y < 0 then 0 else pow(X, Y) endif  %%% undefined, excluded by the caller
+        | X in lb(x)..ub(x), Y in lb(y)..ub(y) ],
+      );
   } in z == x2y[x, y];
 
 %%% Adding a version returning float for efficiency
@@ -370,7 +376,13 @@ function var float: pow_float(var int: x, var int: y) =
 predicate int_pow_float(var int: x, var int: y, var float: r) =
   let {
     array [int, int] of float: x2y =
-      array2d(lb(x)..ub(x), lb(y)..ub(y), [pow(X, Y) | X in lb(x)..ub(x), Y in lb(y)..ub(y)]);
+      array2d(
+        lb(x)..ub(x),
+        lb(y)..ub(y),
+        [
+          if X = 0 /\ Y < 0 then 0.0 else pow(X, Y) endif  %%% undefined, excluded by the caller
+        | X in lb(x)..ub(x), Y in lb(y)..ub(y) ],
+      );
   } in r == x2y[x, y];
 
 %-----------------------------------------------------------------------------%
-- 
2.43.0


From 7ad411a91abd95a9949362c7324806797c0f44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 11/41] fix: product of an array of variables in non-positive
 contexts

---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 4a971f1..12a4e19 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -2798,7 +2798,7 @@ function var float: sqrt_mt(var float: x) :: promise_total =
     constraint float_sqrt(xx, r);
   } in r;
 
-function var int: product_rec(array [int] of var int: x) =
+function var int: product_rec(array [int] of var int: x) :: promise_total =
   if length(x) = 0 then
     1
   elseif length(x) = 1 then
@@ -2812,7 +2812,7 @@ function var int: product_rec(array [int] of var int: x) =
     } in y[length(y)]
   endif;
 
-function var float: product_rec(array [int] of var float: x) =
+function var float: product_rec(array [int] of var float: x) :: promise_total =
   if length(x) = 0 then
     1.0
   elseif length(x) = 1 then
-- 
2.43.0


From 7ed8436cb925c11f6ac60d563ec313a5479f6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 12/41] fix: context of integer lets and function bodies whose
 value is constrained in both directions

---
 lib/flatten/flatten_call.cpp | 7 ++++++-
 lib/flatten/flatten_let.cpp  | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 974e9c6..673b212 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1301,7 +1301,12 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
             EE ee = flat_exp(env, nctx, decl->e(), r, env.constants.varTrue);
             ret.r = bind(env, ctx, r, ee.r());
           } else {
-            ret = flat_exp(env, ctx, decl->e(), r, ctx.partialityVar(env));
+            Ctx nctx = ctx;
+            if (decl->ti()->domain() != nullptr && !Expression::isa<TIId>(decl->ti()->domain())) {
+              // The check against the return type's domain constrains the result in both directions
+              nctx.i = C_MIX;
+            }
+            ret = flat_exp(env, nctx, decl->e(), r, ctx.partialityVar(env));
             args_ee.push_back(ret);
             if (Expression::type(decl->e()).dim() > 0) {
               auto* al = Expression::cast<ArrayLit>(follow_id(ret.r()));
diff --git a/lib/flatten/flatten_let.cpp b/lib/flatten/flatten_let.cpp
index 68bf4d7..c31710a 100644
--- a/lib/flatten/flatten_let.cpp
+++ b/lib/flatten/flatten_let.cpp
@@ -41,8 +41,10 @@ EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
             } else {
               nctx.i = -transfer_ctx;
             }
-          } else if (Expression::type(vd->e()).isbool()) {
+          } else if (Expression::type(vd->e()).bt() == Type::BT_BOOL) {
             nctx.b = C_MIX;
+          } else {
+            nctx.i = C_MIX;
           }
 
           CallStackItem csi_vd(env, vd);
-- 
2.43.0


From 8aba40fa6bce7e12a7d4524a41688fb2b004c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 13/41] fix: array accesses with an undefined fixed index are
 undefined

---
 lib/flatten/flatten_arrayaccess.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_arrayaccess.cpp b/lib/flatten/flatten_arrayaccess.cpp
index f61778f..5c278ab 100644
--- a/lib/flatten/flatten_arrayaccess.cpp
+++ b/lib/flatten/flatten_arrayaccess.cpp
@@ -73,7 +73,22 @@ start_flatten_arrayaccess:
         }
         if (Expression::type(tmp).isPar()) {
           GCLock lock;
-          auto* v = eval_par(env, tmp);
+          Expression* v;
+          try {
+            v = eval_par(env, tmp);
+          } catch (ResultUndefinedError&) {
+            // The index is undefined, and therefore the array access is undefined
+            ees.emplace_back(nullptr, env.constants.literalFalse);
+            ees.emplace_back(nullptr, eev.b());
+            if (aa->type().isbool() && !aa->type().isOpt()) {
+              ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+              ret.r = conj(env, r, ctx, ees);
+            } else {
+              ret.b = conj(env, b, ctx, ees);
+              ret.r = bind(env, ctx, r, create_dummy_value(env, aa->type()));
+            }
+            return ret;
+          }
           if (v == env.constants.absent) {
             anyAbsent = true;
             idx[j] = al->min(j);
-- 
2.43.0


From e8b0579d04e595e343d023c0df9ca077fc925166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 14/41] fix: negated membership of an undefined expression in a
 set variable

---
 lib/flatten/flatten_binop.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index ab07665..c20bddf 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1511,7 +1511,8 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
   // Exclusion from domain, e.g., not (5 in x)
   if (isBuiltin && bot == BOT_IN && ctx.b == C_NEG && ctx.neg == true &&
       r == env.constants.varTrue && Expression::type(e0.r()).isPar() &&
-      Expression::type(e1.r()).isIntSet() && Expression::isa<Id>(e1.r())) {
+      Expression::type(e1.r()).isIntSet() && Expression::isa<Id>(e1.r()) &&
+      istrue(env, e0.b()) && istrue(env, e1.b())) {
     auto* vd = Expression::cast<Id>(e1.r())->decl();
     if (vd->ti()->domain() != nullptr) {
       GCLock lock;
-- 
2.43.0


From 847ff88db92894527b0451ad75c4a97bdafa0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 15/41] fix: output of variables whose definition refers to
 themselves

---
 lib/output.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 00d6c9c..1fc4394 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -835,6 +835,31 @@ public:
   }
 };
 
+/// Whether the definition of \a vd refers (directly or through other definitions) to \a vd itself
+bool rhs_is_cyclic(VarDecl* vd) {
+  class V : public EVisitor {
+  public:
+    VarDecl* target;
+    std::unordered_set<VarDecl*> seen;
+    bool cyclic = false;
+    V(VarDecl* target0) : target(target0) {}
+    bool enter(Expression* /*e*/) const { return !cyclic; }
+    void vId(Id* ident) {
+      VarDecl* decl = ident->decl();
+      if (decl == target) {
+        cyclic = true;
+      } else if (decl != nullptr && decl->toplevel() && decl->e() != nullptr &&
+                 seen.insert(decl).second) {
+        top_down(*this, decl->e());
+      }
+    }
+  } _v(vd);
+  if (vd->e() != nullptr) {
+    top_down(_v, vd->e());
+  }
+  return _v.cyclic;
+}
+
 void output_vardecls(EnvI& env, Item* ci, Expression* e) {
   class O : public EVisitor {
   public:
@@ -889,7 +914,8 @@ void output_vardecls(EnvI& env, Item* ci, Expression* e) {
           }
           output_vardecls(env, nvi, it->second());
           nvi->e()->e(rhs);
-        } else if ((reallyFlat != nullptr) && cannot_use_rhs_for_output(env, nvi->e()->e())) {
+        } else if ((reallyFlat != nullptr) &&
+                   (cannot_use_rhs_for_output(env, nvi->e()->e()) || rhs_is_cyclic(vd))) {
           assert(nvi->e()->flat());
           nvi->e()->e(nullptr);
           const auto dims =
@@ -1814,6 +1840,7 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
   public:
     EnvI& env;
     std::unordered_set<FunctionI*> visited;
+    std::unordered_set<VarDecl*> inProgress;
     CollectVarDecls(EnvI& env0) : env(env0) {}
 
     void vCall(Call* c) {
@@ -1831,7 +1858,12 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
         return;
       }
       if (vd->e() != nullptr) {
+        if (!inProgress.insert(vd).second) {
+          // The definition of this variable refers to the variable itself
+          return;
+        }
         top_down(*this, vd->e());
+        inProgress.erase(vd);
       }
       top_down(*this, vd->ti());
       auto idx = env.outputVarOccurrences.find(vd);
-- 
2.43.0


From 2724f846a69cf8bc6a1510a19f0870150759cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 16/41] fix: CSE entries do not include the definedness of the
 arguments of the first call

---
 lib/flatten/flatten_binop.cpp | 11 ++++++++---
 lib/flatten/flatten_call.cpp  | 31 +++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index c20bddf..1890815 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -993,8 +993,13 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
   cc->type(bo->type());
   auto cit = env.cseMapFind(cc);
   if (cit != env.cseMapEnd()) {
-    ret.b = bind(env, Ctx(), b, env.ignorePartial ? env.constants.literalTrue : cit->second.b);
-    ret.r = bind(env, ctx, r, cit->second.r);
+    // The cached entry only contains the definedness of the operation itself
+    KeepAlive cit_r(cit->second.r);
+    ees.emplace_back(nullptr, env.ignorePartial ? env.constants.literalTrue : cit->second.b);
+    GC::unlock();
+    ret.b = conj(env, b, Ctx(), ees);
+    GC::lock();
+    ret.r = bind(env, ctx, r, cit_r());
   } else {
     if (FunctionI* fi = env.model->matchFn(env, cc->id(), args, false)) {
       assert(cc->type() == fi->rtype(env, args, nullptr, false));
@@ -1011,7 +1016,7 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
       ret.r = bind(env, ctx, r, cc);
       ret.b = conj(env, b, Ctx(), ees);
       if (!ctx.neg) {
-        env.cseMapInsert(cc, ret);
+        env.cseMapInsert(cc, EE(ret.r(), env.constants.literalTrue));
       }
     }
   }
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 673b212..1b67fa7 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1097,6 +1097,29 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
       cr = cr_c;
     }
 
+    // Number of entries in args_ee that represent the definedness of the arguments
+    const size_t numArgsEE = args_ee.size();
+    // Add the result of the call to the CSE map. Later calls with the same (flat) arguments add the
+    // definedness of their own arguments, so the entry must not include that of this call.
+    auto cseInsert = [&](Expression* key) {
+      EE own = ret;
+      bool argsTotal = true;
+      for (size_t i = 0; i < numArgsEE; i++) {
+        argsTotal = argsTotal && istrue(env, args_ee[i].b());
+      }
+      if (!argsTotal) {
+        std::vector<EE> ownEE(args_ee.begin() + numArgsEE, args_ee.end());
+        if (Expression::type(e).isbool() && !Expression::type(e).isOpt()) {
+          if (!istrue(env, ret.r())) {
+            own.r = conj(env, nullptr, ctx, ownEE);
+          }
+        } else if (!istrue(env, ret.b())) {
+          own.b = conj(env, nullptr, Ctx(), ownEE);
+        }
+      }
+      env.cseMapInsert(key, own);
+    };
+
     auto cit = env.cseMapEnd();
     if (!ctx.neg && !Expression::type(cr()).isAnn()) {
       cit = env.cseMapFind(cr());
@@ -1202,7 +1225,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           args_ee.emplace_back(nullptr, reif_b->id());
           ret.r = conj(env, nullptr, ctx, args_ee);
           if (!ctx.neg && !Expression::type(cr()).isAnn()) {
-            env.cseMapInsert(cr(), ret);
+            cseInsert(cr());
           }
           return ret;
         }
@@ -1251,7 +1274,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           add_path_annotation(env, res.r());
           ret.r = bind(env, Ctx(), r, res.r());
           if (!ctx.neg && !cr_c->type().isAnn()) {
-            env.cseMapInsert(cr_c, ret);
+            cseInsert(cr_c);
           }
         } else {
           GCLock lock;
@@ -1259,7 +1282,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           add_path_annotation(env, cr_c);
           ret.r = bind(env, ctx, r, cr_c);
           if (!ctx.neg && !cr_c->type().isAnn()) {
-            env.cseMapInsert(cr_c, ret);
+            cseInsert(cr_c);
           }
         }
       } else {
@@ -1348,7 +1371,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           ret.b = conj(env, b, Ctx(), args_ee);
         }
         if (!ctx.neg && !Expression::type(cr()).isAnn()) {
-          env.cseMapInsert(cr(), ret);
+          cseInsert(cr());
         }
 
         // Restore previous mapping
-- 
2.43.0


From 7fb4eb976270c50ad9a4af286c0b9a9cffa09348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 17/41] fix: reified ordering of an empty set in the nosets
 library

---
 share/minizinc/std/nosets.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/nosets.mzn b/share/minizinc/std/nosets.mzn
index 7795db4..c28ceea 100644
--- a/share/minizinc/std/nosets.mzn
+++ b/share/minizinc/std/nosets.mzn
@@ -183,7 +183,7 @@ predicate set_le(var set of int: s, var set of int: t) =
 
 predicate set_le_reif(var set of int: s, var set of int: t, var bool: b) =
   if ub(s) = {} then
-    true
+    b
   elseif ub(t) = {} then
     set_eq_reif(s, {}, b)
   else
-- 
2.43.0


From a11ea027fb57adad8bbb2b128910a33850fb4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 18/41] fix: crash on constraints over a variable whose domain
 became empty

---
 lib/flatten.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 7d86166..cb4c719 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -2731,7 +2731,10 @@ bool check_domain_constraints(EnvI& env, Call* c) {
       IntVal lb = eval_int(env, e0);
       if (id->decl()->ti()->domain() != nullptr) {
         IntSetVal* domain = eval_intset(env, id->decl()->ti()->domain());
-        assert(!domain->empty());
+        if (domain->empty()) {
+          env.fail();
+          return false;
+        }
         if (domain->min() >= lb) {
           return false;
         }
@@ -2757,6 +2760,10 @@ bool check_domain_constraints(EnvI& env, Call* c) {
       IntVal ub = eval_int(env, e1);
       if (id->decl()->ti()->domain() != nullptr) {
         IntSetVal* domain = eval_intset(env, id->decl()->ti()->domain());
+        if (domain->empty()) {
+          env.fail();
+          return false;
+        }
         if (domain->max() <= ub) {
           return false;
         }
@@ -2798,7 +2805,10 @@ bool check_domain_constraints(EnvI& env, Call* c) {
       if (Id* id = Expression::dynamicCast<Id>((*al_x)[0])) {
         if (id->decl()->ti()->domain() != nullptr) {
           IntSetVal* domain = eval_intset(env, id->decl()->ti()->domain());
-          assert(!domain->empty());
+          if (domain->empty()) {
+            env.fail();
+            return false;
+          }
           if (domain->max() <= ub && domain->min() >= lb) {
             return false;
           }
-- 
2.43.0


From 839ba4ac429aef971267bb0d6422fc4efc19f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 19/41] fix: wrong context for negated forall/exists with
 half-reification

---
 lib/flatten/flatten_call.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 1b67fa7..d56141a 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -435,6 +435,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     nctx.b = +nctx.b;
     if (ctx.neg) {
       ctx.neg = false;
+      ctx.b = -ctx.b;
       nctx.neg = true;
       cid = env.constants.ids.exists;
     }
@@ -442,6 +443,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     nctx.b = +nctx.b;
     if (ctx.neg) {
       ctx.neg = false;
+      ctx.b = -ctx.b;
       nctx.neg = true;
       cid = env.constants.ids.forall;
     }
-- 
2.43.0


From 704f5e4c590cca01e0c4bb292b49b36524cb54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 20/41] fix: integer power with base 0, 1 or -1 and a huge
 exponent does not terminate

---
 include/minizinc/values.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/minizinc/values.hh b/include/minizinc/values.hh
index e94ba27..19b08de 100644
--- a/include/minizinc/values.hh
+++ b/include/minizinc/values.hh
@@ -200,6 +200,12 @@ public:
       }
       return 0;
     }
+    if (*this == 0 || *this == 1) {
+      return *this;
+    }
+    if (*this == -1) {
+      return exponent % 2 == 0 ? 1 : -1;
+    }
     IntVal result = 1;
     for (int i = 0; i < exponent.toInt(); i++) {
       result *= *this;
-- 
2.43.0


From 0714897166f52a7794430b0dfb37248d55601a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 21/41] fix: rounding a float outside the integer range gives
 an arbitrary integer

---
 include/minizinc/values.hh | 9 +++++++--
 lib/builtins.cpp           | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/values.hh b/include/minizinc/values.hh
index 19b08de..975680f 100644
--- a/include/minizinc/values.hh
+++ b/include/minizinc/values.hh
@@ -519,8 +519,13 @@ std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& o
   return os << oss.str();
 }
 
-inline IntVal::IntVal(const FloatVal& v)
-    : _v(static_cast<long long int>(v._v)), _infinity(!v.isFinite()) {}
+inline IntVal::IntVal(const FloatVal& v) : _v(0), _infinity(!v.isFinite()) {
+  // The bounds are powers of two, and therefore exact
+  if (!(v._v >= -9223372036854775808.0 && v._v < 9223372036854775808.0)) {
+    throw ArithmeticError("integer overflow");
+  }
+  _v = static_cast<long long int>(v._v);
+}
 
 inline FloatVal abs(const FloatVal& x) {
   if (!x.isFinite()) {
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 8db731a..abd01bf 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1826,7 +1826,7 @@ IntVal b_floor(EnvI& env, Call* call) {
 }
 IntVal b_round(EnvI& env, Call* call) {
   /// Cast to int truncates, so cannot just add 0.5 and cast
-  return {static_cast<long long>(std::round(eval_float(env, call->arg(0)).toDouble()))};
+  return static_cast<IntVal>(FloatVal(std::round(eval_float(env, call->arg(0)).toDouble())));
 }
 FloatVal b_log10(EnvI& env, Call* call) {
   return std::log10(eval_float(env, call->arg(0)).toDouble());
-- 
2.43.0


From b1c7e2b435e675d7c2d69b7faea83cc3448182e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 22/41] fix: bounds of large linear expressions were rounded in
 floating point

---
 include/minizinc/flatten_internal.hh |  8 ++++----
 lib/optimize_constraints.cpp         | 11 ++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/minizinc/flatten_internal.hh b/include/minizinc/flatten_internal.hh
index 45cbdc8..1b05104 100644
--- a/include/minizinc/flatten_internal.hh
+++ b/include/minizinc/flatten_internal.hh
@@ -765,12 +765,12 @@ public:
     return IntSetVal::ai(inter);
   }
   static Val floorDiv(Val v0, Val v1) {
-    return static_cast<long long int>(
-        std::floor(static_cast<double>(v0.toInt()) / static_cast<double>(v1.toInt())));
+    Val q = v0 / v1;
+    return v0 % v1 != 0 && (v0 < 0) != (v1 < 0) ? q - 1 : q;
   }
   static Val ceilDiv(Val v0, Val v1) {
-    return static_cast<long long int>(
-        std::ceil(static_cast<double>(v0.toInt()) / static_cast<double>(v1.toInt())));
+    Val q = v0 / v1;
+    return v0 % v1 != 0 && (v0 < 0) == (v1 < 0) ? q + 1 : q;
   }
   static IntLit* newLit(Val v) { return IntLit::a(v); }
   static IntVal v(const IntLit* il) { return IntLit::v(il); }
diff --git a/lib/optimize_constraints.cpp b/lib/optimize_constraints.cpp
index 3ebe9b1..8c41de6 100644
--- a/lib/optimize_constraints.cpp
+++ b/lib/optimize_constraints.cpp
@@ -94,15 +94,16 @@ OptimizeRegistry::ConstraintStatus o_linear(EnvI& env, Item* ii, Call* c, Expres
       if (ad % ac == 0) {
         nd = rd / coeffs[0];
       } else {
-        double nd_d = static_cast<double>(ad.toInt()) / static_cast<double>(ac.toInt());
+        IntVal nd_floor = ad / ac;
+        IntVal nd_ceil = nd_floor + 1;
         if (coeffs[0] >= 0 && rd >= 0) {
-          nd = static_cast<long long int>(std::floor(nd_d));
+          nd = nd_floor;
         } else if (rd >= 0) {
-          nd = -static_cast<long long int>(std::floor(nd_d));
+          nd = -nd_floor;
         } else if (coeffs[0] >= 0) {
-          nd = -static_cast<long long int>(std::ceil(nd_d));
+          nd = -nd_ceil;
         } else {
-          nd = static_cast<long long int>(std::ceil(nd_d));
+          nd = nd_ceil;
         }
       }
       bool swapSign = coeffs[0] < 0;
-- 
2.43.0


From 2486a2f83e0f26289858394ba947187fb76ea8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 23/41] fix: finite times infinite integer gave a value that is
 neither finite nor infinite

---
 include/minizinc/values.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/minizinc/values.hh b/include/minizinc/values.hh
index 975680f..7b6e1f4 100644
--- a/include/minizinc/values.hh
+++ b/include/minizinc/values.hh
@@ -271,7 +271,7 @@ inline IntVal operator*(const IntVal& x, const IntVal& y) {
       return IntVal(IntVal::safeMult(x._v, y._v), !x.isFinite());
     }
   } else if (!y.isFinite()) {
-    if (x.isFinite() && (y._v == 1 || y._v == -1)) {
+    if (x._v == 1 || x._v == -1) {
       return IntVal(IntVal::safeMult(x._v, y._v), true);
     }
   } else {
-- 
2.43.0


From c19a2bce9b4b13869c6aba76209b4bdb1c4fd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:02 +0000
Subject: [PATCH 24/41] fix: sliding_sum reification equated the result with
 the first window only

---
 share/minizinc/std/fzn_sliding_sum_reif.mzn | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_sliding_sum_reif.mzn b/share/minizinc/std/fzn_sliding_sum_reif.mzn
index 4fb4e9e..ba04567 100644
--- a/share/minizinc/std/fzn_sliding_sum_reif.mzn
+++ b/share/minizinc/std/fzn_sliding_sum_reif.mzn
@@ -11,5 +11,6 @@ predicate fzn_sliding_sum_reif(
     int: lx = min(index_set(xs));
     int: ux = max(index_set(xs));
     array [lx - 1..ux] of var int: S;
-  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\ b <->
-    forall (i in lx - 1..ux - window_size) (S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up);
+  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\
+    (b <->
+      forall (i in lx - 1..ux - window_size) (S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up));
-- 
2.43.0


From 57163cdb08f18b84a64341001dd13d25fa92ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:02 +0000
Subject: [PATCH 25/41] fix: reified sum_set tested positions instead of values
 for membership

---
 share/minizinc/std/fzn_sum_set_reif.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_sum_set_reif.mzn b/share/minizinc/std/fzn_sum_set_reif.mzn
index 2190346..f9d8338 100644
--- a/share/minizinc/std/fzn_sum_set_reif.mzn
+++ b/share/minizinc/std/fzn_sum_set_reif.mzn
@@ -4,4 +4,4 @@ predicate fzn_sum_set_reif(
   var set of int: selected,
   var int: total,
   var bool: b,
-) = b <-> total == sum (j in index_set(values)) ((j in selected) * weights[j]);
+) = b <-> total == sum (j in index_set(values)) ((values[j] in selected) * weights[j]);
-- 
2.43.0


From c3f633d544d171a24f303dba3aef3d09f32f4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 26/41] fix: reified regular was unsatisfiable for values
 outside the alphabet

---
 share/minizinc/std/fzn_regular_reif.mzn     | 16 +++++++++++-----
 share/minizinc/std/fzn_regular_set_reif.mzn | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/share/minizinc/std/fzn_regular_reif.mzn b/share/minizinc/std/fzn_regular_reif.mzn
index a231f38..4b98ef0 100644
--- a/share/minizinc/std/fzn_regular_reif.mzn
+++ b/share/minizinc/std/fzn_regular_reif.mzn
@@ -35,26 +35,32 @@ predicate fzn_regular_reif(
     %   States 1..Q: original; ACC = Q+1 (only accepting state); DEAD = Q+2 (a live,
     %   non-accepting sink that original dead transitions are redirected to, so that
     %   strings rejected by a missing transition can still reach ACC with b = false).
-    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true.
+    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true;
+    %   S+3: stands for any value outside 1..S (which leads to DEAD).
     let {
       int: ACC = Q + 1;
       int: DEAD = Q + 2;
       int: QQ = Q + 2;
-      int: SS = S + 2;
+      int: SS = S + 3;
       array [1..QQ, 1..SS] of int: dd =
         array2d(1..QQ, 1..SS, [
           if r <= Q then
             if c <= S then (if d[r, c] = 0 then DEAD else d[r, c] endif)
             elseif c = S + 1 then (if r in F then 0 else ACC endif)
-            else (if r in F then ACC else 0 endif)
+            elseif c = S + 2 then (if r in F then ACC else 0 endif)
+            else DEAD
             endif
           elseif r = DEAD then
-            (if c <= S then DEAD elseif c = S + 1 then ACC else 0 endif)
+            (if c <= S \/ c = S + 3 then DEAD elseif c = S + 1 then ACC else 0 endif)
           else
             0
           endif
         | r in 1..QQ, c in 1..SS]);
-      array [int] of var int: y = xs ++ [S + 1 + bool2int(b)];
+      array [int] of var int: y = [
+        if dom(xs[i]) subset 1..S then xs[i]
+        else if xs[i] in 1..S then xs[i] else S + 3 endif
+        endif
+      | i in index_set(xs)] ++ [S + 1 + bool2int(b)];
     } in
       fzn_regular(y, QQ, SS, dd, q0, {ACC})
   endif;
diff --git a/share/minizinc/std/fzn_regular_set_reif.mzn b/share/minizinc/std/fzn_regular_set_reif.mzn
index b3f9273..3543fc6 100644
--- a/share/minizinc/std/fzn_regular_set_reif.mzn
+++ b/share/minizinc/std/fzn_regular_set_reif.mzn
@@ -35,27 +35,33 @@ predicate fzn_regular_set_reif(
     %   States 1..Q: original; ACC = Q+1 (only accepting state); DEAD = Q+2 (a live,
     %   non-accepting sink that original dead transitions are redirected to, so that
     %   strings rejected by a missing transition can still reach ACC with b = false).
-    %   Symbols S: original; max(S)+1 marks b = false, max(S)+2 marks b = true.
+    %   Symbols S: original; max(S)+1 marks b = false, max(S)+2 marks b = true;
+    %   max(S)+3: stands for any value outside S (which leads to DEAD).
     let {
       int: ACC = Q + 1;
       int: DEAD = Q + 2;
       int: QQ = Q + 2;
       int: mx = max(S);
-      set of int: SS = min(S)..mx + 2;
+      set of int: SS = min(S)..mx + 3;
       array [1..QQ, SS] of int: dd =
         array2d(1..QQ, SS, [
           if r <= Q then
             if c <= mx then (if d[r, c] = 0 then DEAD else d[r, c] endif)
             elseif c = mx + 1 then (if r in F then 0 else ACC endif)
-            else (if r in F then ACC else 0 endif)
+            elseif c = mx + 2 then (if r in F then ACC else 0 endif)
+            else DEAD
             endif
           elseif r = DEAD then
-            (if c <= mx then DEAD elseif c = mx + 1 then ACC else 0 endif)
+            (if c <= mx \/ c = mx + 3 then DEAD elseif c = mx + 1 then ACC else 0 endif)
           else
             0
           endif
         | r in 1..QQ, c in SS]);
-      array [int] of var int: y = xs ++ [mx + 1 + bool2int(b)];
+      array [int] of var int: y = [
+        if dom(xs[i]) subset S then xs[i]
+        else if xs[i] in S then xs[i] else mx + 3 endif
+        endif
+      | i in index_set(xs)] ++ [mx + 1 + bool2int(b)];
     } in
       fzn_regular_set(y, QQ, SS, dd, q0, {ACC})
   endif;
-- 
2.43.0


From 82a28a7e0d09f28b2fe0b23b550b670a486e3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 27/41] fix: linear lex_less rejected a proper prefix

---
 share/minizinc/linear/fzn_lex_less_int.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/linear/fzn_lex_less_int.mzn b/share/minizinc/linear/fzn_lex_less_int.mzn
index 600f2fb..790cd7f 100644
--- a/share/minizinc/linear/fzn_lex_less_int.mzn
+++ b/share/minizinc/linear/fzn_lex_less_int.mzn
@@ -17,7 +17,7 @@ predicate fzn_lex_less_int(array [int] of var int: xs, array [int] of var int: y
       int: size = min(ux - lx, uy - ly);
       array [0..size] of var 0..1: fEQ;
       array [0..size] of var 0..1: fLT;
-    } in sum(fLT) == 1 /\
+    } in (if length(xs) < length(ys) then sum(fLT) + fEQ[size] else sum(fLT) endif) == 1 /\
       fEQ[0] + fLT[0] == 1 /\
       forall (i in 1..size) (fEQ[i - 1] == fEQ[i] + fLT[i]) /\
       forall (i in 0..size) (
-- 
2.43.0


From b29ad93f55a60035bb5d989ab5ada9c07755dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 28/41] fix: reified span was false when all tasks are absent

---
 share/minizinc/std/fzn_span_reif.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_span_reif.mzn b/share/minizinc/std/fzn_span_reif.mzn
index 5814111..89fe1b2 100644
--- a/share/minizinc/std/fzn_span_reif.mzn
+++ b/share/minizinc/std/fzn_span_reif.mzn
@@ -8,7 +8,7 @@ predicate fzn_span_reif(
   b <->
     (
       (occurs(span_start) <-> exists (i in index_set(start)) (occurs(start[i]))) /\
-        span_start = min(start) /\
+        span_start = min_weak(start) /\
         (absent(span_start) -> span_duration = 0) /\
-        span_start ~+ span_duration = max([start[i] ~+ duration[i] | i in index_set(start)])
+        span_start ~+ span_duration = max_weak([start[i] ~+ duration[i] | i in index_set(start)])
     );
-- 
2.43.0


From c122db819eaf21c124baf187402165c26051ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 29/41] fix: presolver's set_in treated an integer variable as
 Boolean

---
 solvers/gecode/gecode_constraints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 304fad8..a8f870f 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1822,7 +1822,7 @@ void p_set_in(SolverInstanceBase& s, const Call* ce) {
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   if (!Expression::type(ce->arg(1)).isvar()) {
     IntSet d = gi.arg2intset(s.env().envi(), ce->arg(1));
-    if (Expression::type(ce->arg(0)).isvar()) {
+    if (Expression::type(ce->arg(0)).isvarbool()) {
       Gecode::IntSetRanges dr(d);
       Iter::Ranges::Singleton sr(0, 1);
       Iter::Ranges::Inter<Gecode::IntSetRanges, Iter::Ranges::Singleton> i(dr, sr);
-- 
2.43.0


From b750d6311f4f846a0d6cd708c5722e0af9ea20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 30/41] fix: != on optional Booleans was true when both are
 absent

---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 12a4e19..776f4af 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -111,8 +111,10 @@ predicate bool_eq(var bool: x, var opt bool: y) = occurs(y) /\ deopt(y) = x;
 
 predicate bool_xor_reif(var bool: x, var bool: y, var bool: c) = bool_xor(x, y, c);
 
+/* True iff only one of \a x and \a y is absent or
+  both are present and have different values. */
 predicate bool_xor(var opt bool: x, var opt bool: y) =
-  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
+  (absent(x) != absent(y)) \/ (occurs(x) /\ occurs(y) /\ (deopt(x) != deopt(y)));
 
 predicate bool_xor(var bool: x, var bool: y) :: promise_commutative;
 
-- 
2.43.0


From c8930f21843335e9c05bac6d3cd9ff18a5af1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:45 +0000
Subject: [PATCH 31/41] fix: negation was pushed through operators on option
 types as if absent values did not exist

---
 lib/flatten/flatten_binop.cpp | 12 ++++++++++++
 lib/flatten/flatten_call.cpp  |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 1890815..83d42cd 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1800,6 +1800,18 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
     }
     return ret;
   }
+  if (ctx.neg && bo->decl() != nullptr && bo->decl()->e() != nullptr &&
+      (Expression::type(bo->lhs()).isOpt() || Expression::type(bo->rhs()).isOpt())) {
+    // Operators lifted to option types are defined in the library and are not related by
+    // complement or De Morgan's laws, so the negation has to apply to the result of the call
+    GC::lock();
+    Call* c = Call::a(Expression::loc(bo).introduce(), bo->opToString(), {bo->lhs(), bo->rhs()});
+    c->decl(bo->decl());
+    c->type(bo->type());
+    KeepAlive ka(c);
+    GC::unlock();
+    return flat_exp(env, ctx, ka(), r, b);
+  }
   Ctx ctx0 = ctx;
   ctx0.neg = false;
   Ctx ctx1 = ctx;
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index d56141a..ddb9576 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -431,7 +431,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     } else {
       nctx.b = ctx.i;
     }
-  } else if (cid == env.constants.ids.forall) {
+  } else if (cid == env.constants.ids.forall &&
+             !(ctx.neg && Expression::type(c->arg(0)).isOpt())) {
     nctx.b = +nctx.b;
     if (ctx.neg) {
       ctx.neg = false;
@@ -439,7 +440,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
       nctx.neg = true;
       cid = env.constants.ids.exists;
     }
-  } else if (cid == env.constants.ids.exists) {
+  } else if (cid == env.constants.ids.exists &&
+             !(ctx.neg && Expression::type(c->arg(0)).isOpt())) {
     nctx.b = +nctx.b;
     if (ctx.neg) {
       ctx.neg = false;
-- 
2.43.0


From ab1cdcabc4db37f6c8077886a98647e95c6a9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:46 +0000
Subject: [PATCH 32/41] fix: xor on optional Booleans lacked parentheses

---
 share/minizinc/std/stdlib/stdlib_logic.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_logic.mzn b/share/minizinc/std/stdlib/stdlib_logic.mzn
index 811c246..553d44d 100644
--- a/share/minizinc/std/stdlib/stdlib_logic.mzn
+++ b/share/minizinc/std/stdlib/stdlib_logic.mzn
@@ -62,12 +62,12 @@ function var bool: '<->'(var opt bool: x, var opt bool: y) :: promise_commutativ
 function bool: 'xor'(bool: x, bool: y) :: mzn_internal_representation :: promise_commutative;
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function bool: 'xor'(opt bool: x, opt bool: y) :: promise_commutative =
-  absent(x) \/ absent(y) \/ deopt(x) xor deopt(y);
+  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function var bool: 'xor'(var bool: x, var bool: y) :: promise_commutative;
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function var bool: 'xor'(var opt bool: x, var opt bool: y) :: promise_commutative =
-  absent(x) \/ absent(y) \/ deopt(x) xor deopt(y);
+  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
 /** @group stdlib.builtins.logic Return truth value of the negation of \a x */
 function bool: 'not'(bool: x) :: mzn_internal_representation;
 /** @group stdlib.builtins.logic Negation of \a x if it occurs, otherwise absent */
-- 
2.43.0


From d436b70f70c2d15f6afa6049caca834d3dca1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:55 +0000
Subject: [PATCH 33/41] fix: optional elements of a comprehension with a
 variable condition were treated as present

---
 lib/flatten/flatten_comp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_comp.cpp b/lib/flatten/flatten_comp.cpp
index eed00da..c575a79 100644
--- a/lib/flatten/flatten_comp.cpp
+++ b/lib/flatten/flatten_comp.cpp
@@ -212,8 +212,6 @@ EE flatten_comp(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b
 
       Expression* new_e;
 
-      Call* surround = env.surroundingCall();
-
       Type ntype = c->type();
 
       auto* indexes = Expression::dynamicCast<ArrayLit>(c->e());
@@ -225,6 +223,11 @@ EE flatten_comp(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b
         indexes = nullptr;
       }
 
+      // The identity of the surrounding call can only replace absent elements that are excluded by
+      // the condition, not those where the generated expression itself is absent
+      Call* surround =
+          Expression::type(generatedExp).isOpt() ? nullptr : env.surroundingCall();
+
       if ((surround != nullptr) && surround->id() == env.constants.ids.forall) {
         new_e = new BinOp(Location().introduce(), cond, BOT_IMPL, generatedExp);
         Expression::type(new_e, Type::varbool());
-- 
2.43.0


From 30d566366c34d30cf5f459e3bf2a38bd640418b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:55 +0000
Subject: [PATCH 34/41] fix: a variable defined by a constraint was evaluated
 as a parameter expression

---
 lib/eval_par.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 054ce00..0c56f42 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -2434,6 +2434,11 @@ Expression* eval_par(EnvI& env, Expression* e) {
       if (id->decl()->e() == nullptr) {
         return id;
       }
+      if (id->type().isvar() && id->type().dim() == 0 && id->decl()->toplevel() &&
+          Expression::isa<Call>(id->decl()->e()) && Expression::type(id->decl()->e()).isvar()) {
+        // A variable that is defined by a constraint has no parameter value
+        return id;
+      }
       return eval_par(env, id->decl()->e());
     }
     case Expression::E_STRINGLIT:
-- 
2.43.0


From 5948c008babe7a683a7196bb026d90f7634df84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:55 +0000
Subject: [PATCH 35/41] fix: domain of an optional local variable without zero
 was not enforced

---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 776f4af..9fcd19b 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -18,7 +18,13 @@ predicate var_dom(var opt int: x, set of int: s) =
     } in if new_dom = {} then
       absent(x)
     else
-      var_dom(dx, new_dom union if mzn_check_absent_zero() then {0} else {} endif)
+      var_dom(dx, new_dom union if mzn_check_absent_zero() then {0} else {} endif) /\
+      if mzn_check_absent_zero() /\ 0 in dom(dx) diff new_dom then
+        %% zero is only allowed as the value of an absent variable
+        absent(x) \/ dx != 0
+      else
+        true
+      endif
     endif
   endif;
 predicate var_dom(array [$T] of var opt int: x, set of int: d) =
-- 
2.43.0


From a6bf6e0fd7b4d22e01c0b3c8abb5f75bdb13c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:56 +0000
Subject: [PATCH 36/41] fix: reified membership of an optional expression that
 turns out to be present was rejected

---
 share/minizinc/std/stdlib/stdlib_set.mzn | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_set.mzn b/share/minizinc/std/stdlib/stdlib_set.mzn
index 1dd5a30..104474c 100644
--- a/share/minizinc/std/stdlib/stdlib_set.mzn
+++ b/share/minizinc/std/stdlib/stdlib_set.mzn
@@ -7,9 +7,9 @@
 /** @group stdlib.builtins.set Test if \a x is an element of the set \a y */
 function bool: 'in'($$E: x, set of $$E: y) :: mzn_internal_representation;
 /** @group stdlib.builtins.set \a x is an element of the set \a y */
-function var bool: 'in'(var $$E: x, set of $$E: y);
+function var bool: 'in'(var $$E: x, set of $$E: y) :: mzn_internal_representation;
 /** @group stdlib.builtins.set \a x is an element of the set \a y */
-function var bool: 'in'(var $$E: x, var set of $$E: y);
+function var bool: 'in'(var $$E: x, var set of $$E: y) :: mzn_internal_representation;
 /** @group stdlib.builtins.set \a x is an element of the set \a y. False if \a x is absent. */
 function var bool: 'in'(var opt $$E: x, set of $$E: y) = occurs(x) /\ deopt(x) in y;
 /** @group stdlib.builtins.set Test if \a x is an element of the set \a y. False if \a x is absent. */
@@ -20,7 +20,7 @@ function var bool: 'in'(var opt $$E: x, var set of $$E: y) = occurs(x) /\ deopt(
 /** @group stdlib.builtins.set Test if \a x is an element of the set \a y */
 function bool: 'in'(float: x, set of float: y) :: mzn_internal_representation;
 /** @group stdlib.builtins.set Test if \a x is an element of the set \a y */
-function var bool: 'in'(var float: x, set of float: y);
+function var bool: 'in'(var float: x, set of float: y) :: mzn_internal_representation;
 /** @group stdlib.builtins.set Test if \a x is an element of the set \a y. False if \a x is absent. */
 function bool: 'in'(opt float: x, set of float: y) = occurs(x) /\ deopt(x) in y;
 /** @group stdlib.builtins.set \a x is an element of the set \a y. False if \a x is absent. */
-- 
2.43.0


From e98cc85b99e6799f67470b0c3f446171b7aa276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 37/41] fix: a Boolean field of an undefined struct made more
 than the nearest Boolean expression false

---
 lib/flatten/flatten_fieldaccess.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_fieldaccess.cpp b/lib/flatten/flatten_fieldaccess.cpp
index d4e7912..fa11222 100644
--- a/lib/flatten/flatten_fieldaccess.cpp
+++ b/lib/flatten/flatten_fieldaccess.cpp
@@ -11,6 +11,8 @@
 
 #include <minizinc/flat_exp.hh>
 
+#include <vector>
+
 namespace MiniZinc {
 
 EE flatten_fieldaccess(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b) {
@@ -28,7 +30,9 @@ EE flatten_fieldaccess(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, Var
   Ctx nctx = ctx;
   nctx.b = +nctx.b;
   nctx.neg = false;
-  EE ret = flat_exp(env, nctx, fa->v(), nullptr, b);
+  // A Boolean field access is total: it is false if the struct is undefined
+  const bool isBool = fa->type().isbool() && !fa->type().isOpt();
+  EE ret = flat_exp(env, nctx, fa->v(), nullptr, isBool ? nctx.partialityVar(env) : b);
   auto* al = Expression::cast<ArrayLit>(eval_array_lit(env, ret.r()));
 
   // Resolve field
@@ -39,6 +43,14 @@ EE flatten_fieldaccess(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, Var
   }
 
   // Bind result
+  if (isBool) {
+    std::vector<EE> ees;
+    ees.emplace_back(nullptr, ret.b());
+    ees.emplace_back(nullptr, (*al)[static_cast<unsigned int>(i.toInt()) - 1]);
+    ret.r = conj(env, r, ctx, ees);
+    ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+    return ret;
+  }
   ret.r = bind(env, ctx, r, (*al)[static_cast<unsigned int>(i.toInt()) - 1]);
   return ret;
 }
-- 
2.43.0


From abca79a6a40e4b5953341198d11c9ab7af57938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:51 +0000
Subject: [PATCH 38/41] fix: linear library: the integer view of an already
 fixed Boolean was not linked to it

---
 share/minizinc/linear/redefinitions.mzn | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/share/minizinc/linear/redefinitions.mzn b/share/minizinc/linear/redefinitions.mzn
index b0a2cc2..260402e 100644
--- a/share/minizinc/linear/redefinitions.mzn
+++ b/share/minizinc/linear/redefinitions.mzn
@@ -17,10 +17,14 @@ function var int: bool2int(
   var bool: x,
 )
   :: promise_total =
-  let {
-    var 0..1: b2i;
-    constraint (x = reverse_map(b2i)) :: is_reverse_map;
-  } in b2i;
+  if is_fixed(x) then
+    bool2int(fix(x))
+  else
+    let {
+      var 0..1: b2i;
+      constraint (x = reverse_map(b2i)) :: is_reverse_map;
+    } in b2i
+  endif;
 
 predicate bool_eq(var bool: x, var bool: y) =
   %%  trace(" bool_eq: \(x), \(y) \n") /\
-- 
2.43.0


From edbbe7659eb7bf857455492427ecfd1ceef4d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:51 +0000
Subject: [PATCH 39/41] fix: segmentation fault when an output variable is
 defined by the functional form of a flat constraint

---
 lib/output.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 1fc4394..fec1158 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -166,6 +166,11 @@ bool cannot_use_rhs_for_output(EnvI& env, Expression* e,
         if (origdecl == nullptr) {
           origdecl = env.model->matchFn(env, name, tv, false);
         }
+        if (origdecl == nullptr && baseDecl == nullptr) {
+          // Functional form of a flat constraint, which cannot be evaluated
+          success = false;
+          return nullptr;
+        }
         if (origdecl == nullptr) {
           std::ostringstream ss;
           ss << "function " << demonomorphise_identifier(name)
@@ -640,10 +645,11 @@ void make_par(EnvI& env, Expression* e) {
         }
       }
       auto* fi = env.output->matchFn(env, c, false);
+      if (fi == nullptr) {
+        fi = env.model->matchFn(env, c, false);
+      }
       if (fi != nullptr) {
         c->decl(fi);
-      } else {
-        c->decl(env.model->matchFn(env, c, false));
       }
     }
     void vBinOp(BinOp* bo) {
-- 
2.43.0


From 82f660d33baad4769a45638db3520623179d8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:16 +0000
Subject: [PATCH 40/41] fix: cumulative over a long horizon counts a
 zero-length task at its start (reified and optional-task decompositions)

---
 share/minizinc/std/fzn_cumulative_opt_decomp.mzn | 10 +++++-----
 share/minizinc/std/fzn_cumulative_opt_reif.mzn   | 10 +++++-----
 share/minizinc/std/fzn_cumulative_reif.mzn       |  3 ++-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/share/minizinc/std/fzn_cumulative_opt_decomp.mzn b/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
index faeb759..750bfbd 100644
--- a/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
+++ b/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
@@ -40,11 +40,11 @@ predicate fzn_cumulative_opt_task(
     forall (j in Tasks) (
       occurs(s[j]) ->
         b >=
-          r[j] +
-            sum (i in Tasks where i != j) (
-              (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
-                r[i]
-            )
+          % Note: i can equal j. If j has a duration of 0, then it is not considered.
+          sum (i in Tasks) (
+            (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
+              r[i]
+          )
     )
   );
 
diff --git a/share/minizinc/std/fzn_cumulative_opt_reif.mzn b/share/minizinc/std/fzn_cumulative_opt_reif.mzn
index ba8c1d4..90f8c84 100644
--- a/share/minizinc/std/fzn_cumulative_opt_reif.mzn
+++ b/share/minizinc/std/fzn_cumulative_opt_reif.mzn
@@ -63,10 +63,10 @@ predicate fzn_cumulative_opt_task_reif(
       forall (j in Tasks) (
         occurs(s[j]) ->
           b >=
-            r[j] +
-              sum (i in Tasks where i != j) (
-                (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
-                  r[i]
-              )
+            % Note: i can equal j. If j has a duration of 0, then it is not considered.
+            sum (i in Tasks) (
+              (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
+                r[i]
+            )
       )
   );
diff --git a/share/minizinc/std/fzn_cumulative_reif.mzn b/share/minizinc/std/fzn_cumulative_reif.mzn
index 15b5a3b..a622607 100644
--- a/share/minizinc/std/fzn_cumulative_reif.mzn
+++ b/share/minizinc/std/fzn_cumulative_reif.mzn
@@ -51,6 +51,7 @@ predicate fzn_cumulative_task_reif(
   } in (
     bb <->
       forall (j in Tasks) (
-        b >= r[j] + sum (i in Tasks where i != j) ((s[i] <= s[j] /\ s[j] < s[i] + d[i]) * r[i])
+        % Note: i can equal j. If j has a duration of 0, then it is not considered.
+        b >= sum (i in Tasks) ((s[i] <= s[j] /\ s[j] < s[i] + d[i]) * r[i])
       )
   );
-- 
2.43.0


From 4a3f13029ad4dda74ce7a70435a458adb1db9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:04 +0000
Subject: [PATCH 41/41] fix: linear library fails on a reified equality with a
 value outside the grid of a scaled integer variable

---
 lib/MIPdomains.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/MIPdomains.cpp b/lib/MIPdomains.cpp
index bf17b70..e61fda9 100644
--- a/lib/MIPdomains.cpp
+++ b/lib/MIPdomains.cpp
@@ -1564,9 +1564,14 @@ private:
                     relateReifFlag(pCall->arg(1), {{rhsUp + delta, IntvReal::infPlus()}});
                     break;
                   case CMPT_EQ:
-                    relateReifFlag(pCall->arg(2), {{rhsRnd, rhsRnd}});
-                    break;  // ... but if the value is sign. fractional for an int var, the flag is
-                            // set=0
+                    if (cls.varRef1->type().isint() &&
+                        std::fabs(rhsRnd - std::round(rhsRnd)) > INT_EPS) {
+                      // the value is sign. fractional for an int var, so the flag is set=0
+                      relateReifFlag(pCall->arg(2), SetOfIntvReal());
+                    } else {
+                      relateReifFlag(pCall->arg(2), {{rhsRnd, rhsRnd}});
+                    }
+                    break;
                   default:
                     break;
                 }
-- 
2.43.0

