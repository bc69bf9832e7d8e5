From 2d7d256e5d2b7908f706c8b6733a65fe98f3c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 01/82] fix: load the tuples of a table under the alias of the
 scan in the interpreter

---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..d98ccf4 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -903,7 +903,7 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From 4bc5bac5bc4131641a4b3f6425be780a464c5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 02/82] fix: compute Cartesian products of sources which are
 not joined

---
 src/IR/Optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..82fb382 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -198,6 +198,13 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     /*----- Initialize plan table and compute plans for data sources. -----*/
     auto source_plans = optimize_source_plans(G, PT);
 
+    /*----- Connect sources that are not joined with each other, to have them joined by a Cartesian product. -----*/
+    auto &M = G.adjacency_matrix();
+    for (std::size_t i = 1; i != num_sources; ++i) {
+        if (not M.reachable(Subproblem::Singleton(0))(i))
+            M.at(0, i) = M.at(i, 0) = true;
+    }
+
     /*----- Compute join order and construct plan containing all joins. -----*/
     optimize_join_order(G, PT);
     std::unique_ptr<Producer> plan = construct_join_order(G, PT, source_plans);
-- 
2.43.0


From 1eba95cd7064643a9d81e151eb12ecbe0eb5be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 03/82] fix: propagate NULL in the StackMachine without
 evaluating the values of NULL operands

---
 src/backend/StackMachine.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..e7e468d 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1212,6 +1212,7 @@ NEXT;
 
 #define UNARY(OP, TYPE) { \
     M_insist(top_ >= 1); \
+    if (TOP_IS_NULL) NEXT; /* NULL remains NULL */ \
     TYPE val = TOP.as<TYPE>(); \
     TOP = OP(val); \
 } \
@@ -1219,12 +1220,14 @@ NEXT;
 
 #define BINARY(OP, TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
+    Value rhs_val = TOP; \
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
+    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (TOP_IS_NULL) NEXT; /* the value of a NULL operand must not be evaluated */ \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
     TOP = OP(lhs, rhs); \
-    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
 } \
 NEXT;
 
@@ -1360,11 +1363,11 @@ Not_b: UNARY(not, bool);
 /* Logical and with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 And_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs and rhs;
     TOP_IS_NULL = (lhs or is_lhs_null) and (rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1373,11 +1376,11 @@ NEXT;
 /* Logical or with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 Or_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>();
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>();
     TOP = lhs or rhs;
     TOP_IS_NULL = (not lhs or is_lhs_null) and (not rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1436,13 +1439,14 @@ GE_s: BINARY(0 <= strcmp, char*);
 
 #define CMP(TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
+    Value rhs_val = TOP; \
     bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
+    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (TOP_IS_NULL) NEXT; /* the value of a NULL operand must not be evaluated */ \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
-    bool is_lhs_null = TOP_IS_NULL; \
     TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
 } \
 NEXT;
 
-- 
2.43.0


From db26b8a4df40a54d1fdbd40e4aea78bca9a84314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 04/82] fix: keep NULLs when cloning a tuple

---
 src/IR/Tuple.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..34d6653 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -113,6 +113,7 @@ Tuple::Tuple(std::vector<const Type*> types)
     for (std::size_t i = 0; i != types.size(); ++i) {
         if (auto cs = cast<const CharacterSequence>(types[i])) {
             new (&values_[i]) Value(p);
+            *p = '\0'; // terminating NUL byte
             p += cs->length + 1;
         } else {
             new (&values_[i]) Value();
@@ -125,7 +126,9 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
-        if (S[i].type->is_character_sequence()) {
+        if (is_null(i)) {
+            cpy.null(i);
+        } else if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
         } else {
-- 
2.43.0


From 1f59b681dd5d16e598670727498ef342b25ee17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 05/82] fix: group character sequences by content in the
 interpreter

---
 src/backend/Interpreter.cpp | 90 ++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 37 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d98ccf4..d060d5f 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -10,6 +10,7 @@
 #include <mutable/parse/AST.hpp>
 #include <mutable/util/fn.hpp>
 #include <numeric>
+#include <string_view>
 #include <type_traits>
 
 
@@ -642,6 +643,48 @@ struct NestedLoopsJoinData : JoinData
     ~NestedLoopsJoinData() { delete[] buffers; }
 };
 
+/** Computes the hash of the *key* of a tuple, i.e. of its first values, whose types are given.  Character sequences are
+ * hashed by content. */
+struct KeyHasher
+{
+    std::vector<const Type*> types;
+
+    uint64_t operator()(const Tuple &tup) const {
+        std::hash<Value> h;
+        uint64_t hash = 0xcbf29ce484222325;
+        for (std::size_t i = 0; i != types.size(); ++i) {
+            if (not tup.is_null(i)) {
+                if (types[i]->is_character_sequence())
+                    hash ^= std::hash<std::string_view>{}(tup[i].as<const char*>());
+                else
+                    hash ^= h(tup[i]);
+            }
+            hash *= 1099511628211;
+        }
+        return hash;
+    }
+};
+
+/** Compares two tuples by their *keys*, i.e. by their first values, whose types are given.  Character sequences are
+ * compared by content.  `NULL` equals `NULL`. */
+struct KeyEquals
+{
+    std::vector<const Type*> types;
+
+    bool operator()(const Tuple &first, const Tuple &second) const {
+        for (std::size_t i = 0; i != types.size(); ++i) {
+            if (first.is_null(i) != second.is_null(i)) return false;
+            if (first.is_null(i)) continue;
+            if (types[i]->is_character_sequence()) {
+                if (not streq(first.get(i).as<const char*>(), second.get(i).as<const char*>())) return false;
+            } else {
+                if (first.get(i) != second.get(i)) return false;
+            }
+        }
+        return true;
+    }
+};
+
 struct SimpleHashJoinData : JoinData
 {
     Catalog &C = Catalog::Get();
@@ -803,49 +846,22 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** Callable to compute the hash of the keys of a tuple. */
-    struct hasher
-    {
-        std::size_t key_size;
-
-        hasher(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &tup) const {
-            std::hash<Value> h;
-            uint64_t hash = 0xcbf29ce484222325;
-            for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
-                hash *= 1099511628211;
-            }
-            return hash;
-        }
-    };
-
-    /** Callable to compare two tuples by their keys. */
-    struct equals
-    {
-        std::size_t key_size;
-
-        equals(std::size_t key_size) : key_size(key_size) { }
-
-        uint64_t operator()(const Tuple &first, const Tuple &second) const {
-            for (std::size_t i = 0; i != key_size; ++i) {
-                if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
-                    if (first.get(i) != second.get(i)) return false;
-            }
-            return true;
-        }
-    };
-
     /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
      * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    std::unordered_map<Tuple, unsigned, KeyHasher, KeyEquals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, KeyHasher{get_key_types(op)}, KeyEquals{get_key_types(op)})
     { }
+
+    private:
+    static std::vector<const Type*> get_key_types(const GroupingOperator &op) {
+        std::vector<const Type*> types;
+        for (auto &[grp, alias] : op.group_by())
+            types.push_back(grp.get().type());
+        return types;
+    }
 };
 
 struct SortingData : OperatorData
-- 
2.43.0


From 3126df03f45dffc5f21de4dff8bcd338a6a56e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 06/82] fix: compute hash join keys in a common type and
 compare character sequences by content

---
 src/backend/Interpreter.cpp | 48 +++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d060d5f..d92e524 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -687,27 +687,25 @@ struct KeyEquals
 
 struct SimpleHashJoinData : JoinData
 {
-    Catalog &C = Catalog::Get();
     bool is_probe_phase = false; ///< determines whether tuples are used to *build* or *probe* the hash table
     std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
     StackMachine build_key; ///< extracts the key of the build input
     StackMachine probe_key; ///< extracts the key of the probe input
-    RefCountingHashMap<Tuple, Tuple> ht; ///< hash table on build input
-
     Schema key_schema; ///< the `Schema` of the `key`
+    RefCountingHashMap<Tuple, Tuple, KeyHasher, KeyEquals> ht; ///< hash table on build input
     Tuple key; ///< `Tuple` to hold the key
 
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
-        , ht(1024)
+        , key_schema(compute_key_schema(op))
+        , ht(1024, KeyHasher{get_key_types(key_schema)}, KeyEquals{get_key_types(key_schema)})
     {
         auto &schema_lhs = op.child(0)->schema();
 #ifndef NDEBUG
         auto &schema_rhs = op.child(1)->schema();
 #endif
 
-        /* Decompose each join predicate of the form `A.x = B.y` into parts `A.x` and `B.y` and build the schema of the
-         * join key. */
+        /* Decompose each join predicate of the form `A.x = B.y` into parts `A.x` and `B.y`. */
         auto &pred = op.predicate();
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
@@ -719,10 +717,6 @@ struct SimpleHashJoinData : JoinData
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-            M_insist(first->type() == second->type(), "operand types must be equal");
-
-            /* Add type to general key schema. */
-            key_schema.add(C.pool("key"), first->type());
 
             /*----- Decide which side of the join the predicate belongs to. -----*/
             auto required_by_first = first->get_required();
@@ -751,7 +745,8 @@ struct SimpleHashJoinData : JoinData
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
             build_key.emit(*expr, pipeline_schema, 1); // compile expr
-            build_key.emit_St_Tup(0, i, expr->type()); // write result to index i
+            build_key.emit_Cast(key_schema[i].type, expr->type()); // cast to the type of the key
+            build_key.emit_St_Tup(0, i, key_schema[i].type); // write result to index i
         }
     }
 
@@ -759,9 +754,38 @@ struct SimpleHashJoinData : JoinData
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].second;
             probe_key.emit(*expr, pipeline_schema, 1); // compile expr
-            probe_key.emit_St_Tup(0, i, expr->type()); // write result to index i
+            probe_key.emit_Cast(key_schema[i].type, expr->type()); // cast to the type of the key
+            probe_key.emit_St_Tup(0, i, key_schema[i].type); // write result to index i
         }
     }
+
+    private:
+    /** Computes the `Schema` of the join key.  The two sides of a join predicate may differ in their type, hence the type
+     * of the key must be able to represent the values of both sides. */
+    static Schema compute_key_schema(const JoinOperator &op) {
+        Catalog &C = Catalog::Get();
+        Schema key_schema;
+        for (auto &clause : op.predicate()) {
+            auto &binary = as<const ast::BinaryExpr>(clause[0].expr());
+            auto ty = binary.lhs->type();
+            if (auto n_lhs = cast<const Numeric>(ty)) {
+                ty = arithmetic_join(n_lhs, as<const Numeric>(binary.rhs->type()));
+            } else if (auto cs_lhs = cast<const CharacterSequence>(ty)) {
+                auto cs_rhs = as<const CharacterSequence>(binary.rhs->type());
+                if (cs_rhs->length > cs_lhs->length)
+                    ty = cs_rhs;
+            }
+            key_schema.add(C.pool("key"), ty);
+        }
+        return key_schema;
+    }
+
+    static std::vector<const Type*> get_key_types(const Schema &key_schema) {
+        std::vector<const Type*> types;
+        for (auto &e : key_schema)
+            types.push_back(e.type);
+        return types;
+    }
 };
 
 struct LimitData : OperatorData
-- 
2.43.0


From 44db6dbb8072ff5f819bd5ecdc051e55dc9f9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 07/82] fix: accept negated != as predicate of a hash join

---
 src/backend/Interpreter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d92e524..2872a22 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -708,12 +708,9 @@ struct SimpleHashJoinData : JoinData
         /* Decompose each join predicate of the form `A.x = B.y` into parts `A.x` and `B.y`. */
         auto &pred = op.predicate();
         for (auto &clause : pred) {
-            M_insist(clause.size() == 1, "invalid predicate for simple hash join");
-            auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
-            auto &expr = literal.expr();
+            M_insist(clause.is_equi(), "invalid predicate for simple hash join"); // either `=` or negated `!=`
+            auto &expr = clause[0].expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-- 
2.43.0


From dfa74d5c41350502bc227785e508bb76fded5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 08/82] fix: never join tuples with a NULL in the key of a hash
 join

---
 src/backend/Interpreter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 2872a22..cc1dc9a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -738,6 +738,14 @@ struct SimpleHashJoinData : JoinData
         key = Tuple(key_schema);
     }
 
+    /** Returns `true` iff the computed key contains `NULL`.  Such a key never satisfies an equi-predicate. */
+    bool is_key_null() const {
+        for (std::size_t i = 0; i != exprs.size(); ++i) {
+            if (key.is_null(i)) return true;
+        }
+        return false;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -1042,6 +1050,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->is_key_null()) continue;
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1075,6 +1084,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->is_key_null()) continue;
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From b20b5fd0481990df171951cd7c50d4b8604593da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 09/82] fix: refill the block of a hash join after pushing it
 to the parent

---
 src/backend/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index cc1dc9a..3d2a592 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1055,6 +1055,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parents may have erased tuples from the block
                         i = 0;
                     }
 
-- 
2.43.0


From 07027015df939ff2f99acfc28cf34c6f71faaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 10/82] fix: store arguments of aggregates with the type they
 are cast to

---
 src/backend/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 3d2a592..63f125a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -830,8 +830,8 @@ struct GroupingData : OperatorData
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, arg->type());
-                arg_types.push_back(arg->type());
+                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
+                arg_types.push_back(agg.get().type());
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
-- 
2.43.0


From eaac0aebe895cb5a58942d82cdbf29f35c338be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 11/82] fix: do not cast the argument of COUNT to an integer

---
 src/backend/Interpreter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 63f125a..73aacda 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -829,6 +829,11 @@ struct GroupingData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
+                if (fe.get_function().fnid == Function::FN_COUNT) { // only counts; the argument can be of any type
+                    sm.emit_St_Tup(0, arg_idx++, arg->type());
+                    arg_types.push_back(arg->type());
+                    continue;
+                }
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
                 sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
                 arg_types.push_back(agg.get().type());
@@ -863,6 +868,11 @@ struct AggregationData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
+                if (fe.get_function().fnid == Function::FN_COUNT) { // only counts; the argument can be of any type
+                    sm.emit_St_Tup(0, arg_idx++, arg->type());
+                    arg_types.push_back(arg->type());
+                    continue;
+                }
                 sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
                 sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
                 arg_types.push_back(agg.get().type());
-- 
2.43.0


From d10db0964586060e6f2f36ced17d4f0cb338144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 12/82] fix: compute NULL as SUM over no values

---
 src/backend/Interpreter.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 73aacda..49b68d4 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1274,13 +1274,11 @@ void Pipeline::operator()(const GroupingOperator &op)
 
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
-                    if (is_null) {
-                        if (n->is_floating_point())
-                            group.set(key_size + i, 0.); // double precision
-                        else
-                            group.set(key_size + i, 0); // int
-                    }
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (is_null) { // first value which is not NULL
+                        group.set(key_size + i, aggregate_arguments[0]);
+                        continue;
+                    }
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1397,6 +1395,10 @@ void Pipeline::operator()(const AggregationOperator &op)
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (agg_is_null) { // first value which is not NULL
+                        data->aggregates.set(i, aggregate_arguments[0]);
+                        continue;
+                    }
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1607,15 +1609,6 @@ void Interpreter::operator()(const AggregationOperator &op)
                 data->aggregates.set(i, 0); // initialize
                 break;
 
-            case Function::FN_SUM: {
-                auto n = as<const Numeric>(ty);
-                if (n->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
             case Function::FN_AVG: {
                 if (ty->is_floating_point())
                     data->aggregates.set(i, 0.); // double precision
@@ -1624,6 +1617,7 @@ void Interpreter::operator()(const AggregationOperator &op)
                 break;
             }
 
+            case Function::FN_SUM:
             case Function::FN_MIN:
             case Function::FN_MAX: {
                 data->aggregates.null(i); // initialize to NULL
-- 
2.43.0


From 0c8be4af7daa6ff14605b6f2e75cf80dd4eb9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 13/82] fix: compute AVG over the values which are not NULL
 only, and NULL if there are none

---
 src/backend/Interpreter.cpp | 46 ++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 49b68d4..11a8924 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -848,18 +848,18 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<uint64_t> num_values; ///< the number of values, without `NULL`s, aggregated so far, per aggregate
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
     AggregationData(const AggregationOperator &op)
         : pipeline(op.schema())
+        , num_values(op.aggregates().size())
     {
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -885,9 +885,9 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, KeyHasher, KeyEquals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, per
+     * aggregate, the number of values, without `NULL`s, aggregated so far. */
+    std::unordered_map<Tuple, std::vector<uint64_t>, KeyHasher, KeyEquals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1240,7 +1240,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
+        auto &num_values = entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1287,16 +1287,15 @@ void Pipeline::operator()(const GroupingOperator &op)
                 }
 
                 case Function::FN_AVG: {
-                    if (is_null) {
-                        if (ty->is_floating_point())
-                            group.set(key_size + i, 0.); // double precision
-                        else
-                            group.set(key_size + i, 0); // int
-                    }
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    const auto nth_value = ++num_values[i];
+                    if (is_null) { // first value which is not NULL
+                        group.set(key_size + i, aggregate_arguments[0]);
+                        continue;
+                    }
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_value;
                     break;
                 }
 
@@ -1351,7 +1350,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<uint64_t>(op.aggregates().size()));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1361,10 +1360,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1408,9 +1405,14 @@ void Pipeline::operator()(const AggregationOperator &op)
 
                 case Function::FN_AVG: {
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    const auto nth_value = ++data->num_values[i];
+                    if (agg_is_null) { // first value which is not NULL
+                        data->aggregates.set(i, aggregate_arguments[0]);
+                        continue;
+                    }
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_value;
                     break;
                 }
 
@@ -1595,7 +1597,6 @@ void Interpreter::operator()(const AggregationOperator &op)
     /* Initialize aggregates. */
     for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
         auto &fe = as<const ast::FnApplicationExpr>(op.aggregates()[i].get());
-        auto ty = fe.type();
         auto &fn = fe.get_function();
 
         switch (fn.fnid) {
@@ -1609,15 +1610,8 @@ void Interpreter::operator()(const AggregationOperator &op)
                 data->aggregates.set(i, 0); // initialize
                 break;
 
-            case Function::FN_AVG: {
-                if (ty->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
             case Function::FN_SUM:
+            case Function::FN_AVG:
             case Function::FN_MIN:
             case Function::FN_MAX: {
                 data->aggregates.null(i); // initialize to NULL
-- 
2.43.0


From 0fc24bde5e0555017ed4bdbdb891f6f1f73ba1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 14/82] fix: sort NULLs first in the interpreter

---
 src/backend/Interpreter.cpp  | 14 ++++++++++++--
 src/backend/StackMachine.cpp |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 11a8924..4fab35f 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1640,6 +1640,17 @@ void Interpreter::operator()(const SortingOperator &op)
 
     StackMachine comparator(data->pipeline.schema());
     for (auto o : orderings) {
+        /* Emit comparison of NULLs.  NULLs are always smaller than other values, irrespective of the sort direction. */
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cast_i_b();
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cast_i_b();
+        comparator.emit_Cmp_i();
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1678,8 +1689,7 @@ void Interpreter::operator()(const SortingOperator &op)
     std::sort(data->buffer.begin(), data->buffer.end(), [&](Tuple &first, Tuple &second) {
         Tuple *args[] = { &res, &first, &second };
         comparator(args);
-        M_insist(not res.is_null(0));
-        return res[0].as_i() < 0;
+        return not res.is_null(0) and res[0].as_i() < 0; // comparing two NULLs yields NULL
     });
 
     auto &parent = *op.parent();
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index e7e468d..3851c54 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -891,13 +891,13 @@ void StackMachine::operator()(Tuple **tuples) const
 
 Stop_Z: {
     M_insist(top_ >= 1);
-    if (TOP.as_i() == 0) goto Stop; // stop evaluation on ZERO
+    if (not TOP_IS_NULL and TOP.as_i() == 0) goto Stop; // stop evaluation on ZERO
 }
 NEXT;
 
 Stop_NZ: {
     M_insist(top_ >= 1);
-    if (TOP.as_i() != 0) goto Stop; // stop evaluation on NOT ZERO
+    if (not TOP_IS_NULL and TOP.as_i() != 0) goto Stop; // stop evaluation on NOT ZERO
 }
 NEXT;
 
-- 
2.43.0


From 8b68891219f208b26a666765168007a5fe97b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 15/82] fix: do not overflow when adding offset and limit

---
 src/backend/Interpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 4fab35f..f55bfbf 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1220,7 +1220,8 @@ void Pipeline::operator()(const LimitOperator &op)
     auto data = as<LimitData>(op.data());
 
     for (auto it = block_.begin(); it != block_.end(); ++it) {
-        if (data->num_tuples < op.offset() or data->num_tuples >= op.offset() + op.limit())
+        /* Do not compute `offset + limit`, the sum may overflow. */
+        if (data->num_tuples < op.offset() or data->num_tuples - op.offset() >= op.limit())
             block_.erase(it); /* discard this tuple */
         ++data->num_tuples;
     }
@@ -1228,7 +1229,7 @@ void Pipeline::operator()(const LimitOperator &op)
     if (not block_.empty())
         op.parent()->accept(*this);
 
-    if (data->num_tuples >= op.offset() + op.limit())
+    if (data->num_tuples >= op.offset() and data->num_tuples - op.offset() >= op.limit())
         throw LimitOperator::stack_unwind(); // all tuples produced, now unwind the stack
 }
 
-- 
2.43.0


From 57cc03aacf8bc3173a3a51f1085460486f3eac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 16/82] fix: sort an empty input in the interpreter

---
 src/backend/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index f55bfbf..a0b8a04 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1633,9 +1633,9 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
-    if (not data) // no tuples produced
+    if (not op.data()) // no tuples produced
         return;
+    auto data = as<SortingData>(op.data());
 
     const auto &orderings = op.order_by();
 
-- 
2.43.0


From 1b581d1bd2e6df18d7cee4063eed2703f833cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 17/82] fix: limit the result of a query to no rows when LIMIT
 is zero

---
 include/mutable/IR/QueryGraph.hpp | 2 +-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 3 ++-
 src/IR/QueryGraph2SQL.cpp         | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index fb3df20..784ae49 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -187,7 +187,7 @@ struct M_EXPORT QueryGraph
     std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates_; ///< the aggregates to compute
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
-    struct { uint64_t limit = 0, offset = 0; } limit_; ///< limit: limit and offset
+    struct { uint64_t limit = 0, offset = 0; bool has_limit = false; } limit_; ///< limit: limit and offset
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 82fb382..6445d62 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -453,7 +453,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     /* Limit. */
-    if (G.limit().limit or G.limit().offset) {
+    if (G.limit().has_limit) { // `LIMIT 0` is a limit, too
         /* Compute `DataModel` after limit. */
         auto new_model = CE.estimate_limit(G, *entry.model, G.limit().limit, G.limit().offset);
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 0d67996..8542989 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1877,6 +1877,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     if (stmt.limit) {
         auto LIMIT = as<ast::LimitClause>(stmt.limit.get());
         errno = 0;
+        graph_->limit_.has_limit = true;
         graph_->limit_.limit = strtoull(*(LIMIT->limit.text), nullptr, 0);
         M_insist(errno == 0);
         if (LIMIT->offset) {
@@ -1976,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
         << "<TABLE BORDER=\"0\" CELLPADDING=\"0\" CELLSPACING=\"0\">\n";
 
     /* Limit */
-    if (limit_.limit != 0 or limit_.offset != 0) {
+    if (limit_.has_limit) {
         out << "             <TR><TD ALIGN=\"LEFT\">\n"
             << "               <B>λ</B><FONT POINT-SIZE=\"9\">"
             << limit_.limit << ", " << limit_.offset
diff --git a/src/IR/QueryGraph2SQL.cpp b/src/IR/QueryGraph2SQL.cpp
index 7e084b8..01e11c7 100644
--- a/src/IR/QueryGraph2SQL.cpp
+++ b/src/IR/QueryGraph2SQL.cpp
@@ -85,7 +85,7 @@ void QueryGraph2SQL::translate(const QueryGraph &graph)
         }
     }
 
-    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; limit != 0 or offset != 0 ) {
+    if (auto [limit, offset, has_limit] = graph_->limit(); has_limit) {
         out_ << " LIMIT " << limit;
         if (offset != 0)
             out_ << " OFFSET " << offset;
-- 
2.43.0


From 4e8a0814b0726179236551e1e3e6b97e5db5f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 18/82] fix: expand SELECT * in the order of the sources in the
 FROM clause

---
 src/parse/Sema.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..84ffb90 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1,5 +1,6 @@
 #include "parse/Sema.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/io/Reader.hpp>
@@ -1066,7 +1067,14 @@ void Sema::operator()(SelectClause &c)
             diag.w(c.select_all.pos) << "The '*' has no meaning in this query.  Did you forget the GROUP BY clause?.\n";
         } else {
             /* The '*' in the SELECT clause selects all attributes of all sources. */
-            for (auto &[src_name, src] : Ctx.sources) {
+            std::vector<SemaContext::source_table::pointer> sources; // in the order of the FROM clause
+            for (auto &src : Ctx.sources)
+                sources.push_back(&src);
+            std::sort(sources.begin(), sources.end(), [](auto left, auto right) {
+                return left->second.second < right->second.second;
+            });
+            for (auto source : sources) {
+                auto &[src_name, src] = *source;
                 if (auto ref = std::get_if<std::reference_wrapper<const Table>>(&src.first)) {
                     /* The source is a database table. */
                     auto &tbl = ref->get();
-- 
2.43.0


From aacccad98a4978bdb7ae35d87a7fbfbae4ba6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 19/82] fix: keep the expressions created by the optimizer
 alive while executing a query

---
 src/mutable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..8b7f38a 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -377,8 +377,15 @@ void m::execute_query(Diagnostic &diag, const SelectStmt &stmt, std::unique_ptr<
 void m::execute_query(Diagnostic &diag, const SelectStmt &stmt, std::unique_ptr<Consumer> consumer,
                       const Backend &backend)
 {
-    auto logical_plan = logical_plan_from_statement(diag, stmt, std::move(consumer));
-    auto physical_plan = physical_plan_from_logical_plan(diag, *logical_plan, backend);
+    Catalog &C = Catalog::Get();
+
+    /* The plan refers to expressions owned by the query graph and by the optimizer.  Hence, both must outlive the plan. */
+    auto query_graph = M_TIME_EXPR(QueryGraph::Build(stmt), "Construct the query graph", C.timer());
+    Optimizer Opt(C.plan_enumerator(), C.cost_function());
+    auto optree = M_TIME_EXPR(Opt(*query_graph), "Compute the logical query plan", C.timer());
+    consumer->add_child(optree.release());
+
+    auto physical_plan = physical_plan_from_logical_plan(diag, *consumer, backend);
     execute_physical_plan(diag, *physical_plan, backend);
 }
 
-- 
2.43.0


From 11226afec6ce0927763874d560763a03e2b3aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 20/82] fix: project attributes required for ORDER BY only once

---
 src/IR/Optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 6445d62..ba2a269 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -127,6 +127,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and d == expr.get())
                     return; // found
             }
+            /*----- Find `d` in the projections which are already required. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (d == expr.get())
+                    return; // found
+            }
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
@@ -135,6 +140,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and fn == expr.get())
                     throw visit_skip_subtree(); // found
             }
+            /*----- Find `fn` in the projections which are already required. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (fn == expr.get())
+                    throw visit_skip_subtree(); // found
+            }
             required_projections.emplace_back(fn, ThreadSafePooledOptionalString{});
             throw visit_skip_subtree();
         },
-- 
2.43.0


From 791ec8c3c02347695182f768719ab862863de484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 21/82] fix: group and join -0 with +0 in the interpreter

---
 src/backend/Interpreter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index a0b8a04..18e42f2 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -644,7 +644,7 @@ struct NestedLoopsJoinData : JoinData
 };
 
 /** Computes the hash of the *key* of a tuple, i.e. of its first values, whose types are given.  Character sequences are
- * hashed by content. */
+ * hashed by content, floating-point numbers by value. */
 struct KeyHasher
 {
     std::vector<const Type*> types;
@@ -656,6 +656,10 @@ struct KeyHasher
             if (not tup.is_null(i)) {
                 if (types[i]->is_character_sequence())
                     hash ^= std::hash<std::string_view>{}(tup[i].as<const char*>());
+                else if (types[i]->is_float())
+                    hash ^= std::hash<float>{}(tup[i].as_f()); // same for -0 and +0
+                else if (types[i]->is_double())
+                    hash ^= std::hash<double>{}(tup[i].as_d()); // same for -0 and +0
                 else
                     hash ^= h(tup[i]);
             }
@@ -666,7 +670,7 @@ struct KeyHasher
 };
 
 /** Compares two tuples by their *keys*, i.e. by their first values, whose types are given.  Character sequences are
- * compared by content.  `NULL` equals `NULL`. */
+ * compared by content, floating-point numbers by value.  `NULL` equals `NULL`. */
 struct KeyEquals
 {
     std::vector<const Type*> types;
@@ -677,6 +681,10 @@ struct KeyEquals
             if (first.is_null(i)) continue;
             if (types[i]->is_character_sequence()) {
                 if (not streq(first.get(i).as<const char*>(), second.get(i).as<const char*>())) return false;
+            } else if (types[i]->is_float()) {
+                if (first.get(i).as_f() != second.get(i).as_f()) return false;
+            } else if (types[i]->is_double()) {
+                if (first.get(i).as_d() != second.get(i).as_d()) return false;
             } else {
                 if (first.get(i) != second.get(i)) return false;
             }
-- 
2.43.0


From a6ccbfda1bb927fffb3018ae7a25971873e0807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 22/82] fix: project the arguments of scalar functions required
 for ORDER BY

---
 src/IR/Optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index ba2a269..2cd3ff6 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -115,6 +115,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
     /* Collect all required `Designator`s which are not included in the projection. */
     auto get_required_designator = overloaded {
         [&](const ast::Designator &d) -> void {
+            if (not d.type()->is_primitive())
+                return; // name of a function
             if (auto t = std::get_if<const Expr*>(&d.target())) { // refers to another expression?
                 /*----- Find `t` in projections. -----*/
                 for (auto &[expr, _] : projections) {
@@ -135,6 +137,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
+            if (not fn.get_function().is_aggregate())
+                return; // computed when sorting, requires only the arguments
             /*----- Find `fn` in projections. -----*/
             for (auto &[expr, alias] : projections) {
                 if (not alias.has_value() and fn == expr.get())
-- 
2.43.0


From 44f0868fa19ec6a65e038a6e9365690f7869c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 23/82] fix: end the enumeration of subsets of size zero

---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..dfb447c 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) [[unlikely]] { // the empty set is the only subset of size 0
+            set_ = SmallBitset(limit_);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From 5a72ce09fe21259e00df08bebe204c686c9a35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 24/82] fix: wake the upgrading reader, and not a waiting
 writer, when the other readers are gone

---
 include/mutable/util/reader_writer_lock.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..9c6a2c0 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -133,11 +133,13 @@ class reader_writer_mutex
      * NOTE: Clients are *not* waiting for `mutex_` to become available, but for the `reader_writer_mutex` to become
      * available.  These are two different things.
      */
-    std::condition_variable cv_readers_, cv_writers_;
+    std::condition_variable cv_readers_, cv_writers_, cv_upgrade_;
 
     public:
     void notify_readers() { cv_readers_.notify_all(); }
     void notify_writer() { cv_writers_.notify_one(); }
+    /** Notifies the reader waiting to upgrade.  It does not wait among the writers, as the signal might wake one of them. */
+    void notify_upgrade() { cv_upgrade_.notify_one(); }
 
     /** Acquire a read lock.  This call blocks the calling thread until a read lock was acquired. */
     void lock_read() {
@@ -196,7 +198,7 @@ class reader_writer_mutex
             return false;
 
         M_insist(rw_.reader_wants_upgrade());
-        cv_writers_.wait(lock, [this]() -> bool { return rw_.can_upgrade_lock(); });
+        cv_upgrade_.wait(lock, [this]() -> bool { return rw_.can_upgrade_lock(); });
         M_insist(lock.owns_lock());
         rw_.upgrade_lock();
         return true;
@@ -210,7 +212,7 @@ class reader_writer_mutex
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
             /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
             lock.unlock();
-            notify_writer();
+            notify_upgrade();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 281aa9b3f3c69646a1f54e3d04f1f95e49e57ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 25/82] fix: release the read lock when an upgrade fails, as
 documented

---
 include/mutable/util/reader_writer_lock.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 9c6a2c0..dabc9e0 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -396,6 +396,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 63e25330e7246aebb2e0c10fad01e204f1b034a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 26/82] fix: transfer the lock when move-assigning a
 reader_writer_lock

---
 include/mutable/util/reader_writer_lock.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index dabc9e0..d924b11 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -263,7 +263,11 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        std::swap(rw_mutex_, other.rw_mutex_);
+        std::swap(state_, other.state_);
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From ffe162eb998802a61fd89bbf18a11c6af5485516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 27/82] fix: destroy the elements erased from a
 doubly_linked_list

---
 include/mutable/util/ADT.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index dfb447c..1939221 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -601,6 +601,7 @@ struct doubly_linked_list
             next->ptrxor_ ^= reinterpret_cast<std::uintptr_t>(pos.node_) ^ reinterpret_cast<std::uintptr_t>(prev);
         else // erased last node
             tail_ = prev;
+        pos.node_->value_.~value_type();
         deallocate_node(pos.node_);
         --size_;
         return iterator(next, pos.prev_);
-- 
2.43.0


From 775561ad0e7838da8d198c16a55b2ca58c9ae101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 28/82] fix: insert into a sorted_vector

---
 include/mutable/util/ADT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 1939221..8858bb0 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -815,7 +815,9 @@ struct sorted_vector
     }
 
     /** Inserts `value` into this `sorted_vector`.  Returns an `iterator` pointing to the inserted element. */
-    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value), value, comp_); }
+    auto insert(T value) {
+        return v_.insert(std::lower_bound(begin(), end(), value, comp_), std::move(value));
+    }
 
     /** Inserts elements in the range from `first` (including) to `last` (excluding) into this `sorted_vector. */
     template<typename InsertIt>
-- 
2.43.0


From 08cca551f4390b33643b052d1258380321cc3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 29/82] fix: begin iteration of a RefCountingHashMap at the
 first entry

---
 src/util/container/RefCountingHashMap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..cc7713d 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -203,9 +203,13 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() {
+        auto bucket = table_;
+        while (bucket != table_ + capacity_ and bucket->probe_length == 0) ++bucket; // skip free slots
+        return iterator(*this, bucket);
+    }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const { return const_iterator(*this, const_cast<RefCountingHashMap*>(this)->begin().bucket_); }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
-- 
2.43.0


From 5a1760cf5cdf39e64a7b03eb5049a14979f22faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 30/82] fix: initialize an empty AddressSpace

---
 src/util/memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 2978054..e6afbdf 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -58,6 +58,7 @@ Memory Allocator::create_memory(void *addr, std::size_t size, std::size_t offset
  *====================================================================================================================*/
 
 AddressSpace::AddressSpace(std::size_t size)
+    : AddressSpace()
 {
     if (size != 0) {
         auto aligned_size = Ceil_To_Next_Page(size);
-- 
2.43.0


From ccd36a0dfafa401dc22c08671802c5bb838d9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 31/82] fix: return a copy from the post-increment of a bucket
 iterator

---
 src/util/container/RefCountingHashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index cc7713d..b5fe5c8 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -125,7 +125,7 @@ struct RefCountingHashMap
             return *this;
         }
 
-        the_bucket_iterator & operator++(int) {
+        the_bucket_iterator operator++(int) {
             the_bucket_iterator tmp = *this;
             operator++();
             return tmp;
-- 
2.43.0


From a9ed674cc60a60c19c73930e5ac82e958ed1e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 32/82] fix: let wildcards of LIKE patterns match line
 terminators

---
 include/mutable/util/fn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..a1505b2 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -349,10 +349,10 @@ inline std::regex pattern_to_regex(const char *pattern, const bool optimize = fa
                 ss << *c;
                 break;
             case '%':
-                ss << "(.*)";
+                ss << "([\\s\\S]*)"; // `.` does not match line terminators
                 break;
             case '_':
-                ss << '.';
+                ss << "[\\s\\S]"; // `.` does not match line terminators
                 break;
             case '[':
             case ']':
-- 
2.43.0


From c4fff8e26a4bf7cfd4c447eb7932116e0e5ac2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 33/82] fix: compute logarithms of integers narrower than int

---
 include/mutable/util/fn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a1505b2..8fb2d49 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -196,7 +196,7 @@ M_EXPORT
 log2_floor(T n)
 {
     if constexpr (sizeof(T) <= sizeof(unsigned)) {
-        return sizeof(T) * 8 - __builtin_clz(n) - 1;
+        return sizeof(unsigned) * 8 - __builtin_clz(n) - 1;
     } else if constexpr (sizeof(T) <= sizeof(unsigned long)) {
         return sizeof(T) * 8 - __builtin_clzl(n) - 1;
     } else if constexpr (sizeof(T) <= sizeof(unsigned long long)) {
@@ -211,7 +211,7 @@ typename std::enable_if_t<std::is_integral_v<T> and std::is_unsigned_v<T> and si
 M_EXPORT
 log2_ceil(T n)
 {
-    return n <= 1 ? 0 : log2_floor(n - T(1)) + T(1);
+    return n <= 1 ? 0 : log2_floor(T(n - T(1))) + T(1);
 }
 
 /** Short version of dynamic_cast that works for pointers and references. */
-- 
2.43.0


From 92713c3c817da99446158911b8d2e223cb6be22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 34/82] fix: lexer accepted malformed dates, and took the end
 of the input for a character

---
 src/lex/Lexer.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..c9824b1 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -3,7 +3,7 @@
 #include <cctype>
 
 
-#define UNDO(CHR) { in.putback(c_); c_ = CHR; pos_.column--; }
+#define UNDO(CHR) { if (c_ != EOF) in.putback(c_); c_ = CHR; pos_.column--; }
 
 
 using namespace m;
@@ -193,6 +193,10 @@ Token Lexer::read_string_literal()
         if (c_ == '\\') { // escape character
             push();
             switch (c_) {
+                case EOF:
+                    /* nothing to escape */
+                    break;
+
                 default:
                     /* invalid escape sequence */
                     invalid = true;
@@ -205,6 +209,7 @@ Token Lexer::read_string_literal()
                     push();
             }
         } else {
+            if ('\0' == c_) invalid = true; // the text of a token ends at the first NUL
             push();
         }
     }
@@ -219,7 +224,7 @@ Token Lexer::read_string_literal()
     const auto str = internalize();
 
     if (invalid) {
-        diag.e(start_) << "invalid escape sequence in string literal '" << str << "'\n";
+        diag.e(start_) << "invalid character or escape sequence in string literal '" << str << "'\n";
         return Token(start_, std::move(str), TK_ERROR);
     }
 
@@ -235,17 +240,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 7eb9be11b0cf162126683d312409740999c57a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 35/82] fix: parser took NOT and ~ for binary operators, index
 keys without their parentheses; no hexadecimal ROWS

---
 src/parse/Parser.cpp | 8 ++++++--
 src/parse/Sema.cpp   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..abe5fea 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -454,7 +454,10 @@ std::unique_ptr<Stmt> Parser::parse_CreateIndexStmt()
             }
             /* '(' expression ')' */
             case TK_LPAR: {
+                consume();
                 auto expr = parse_Expr();
+                if (not expect(TK_RPAR))
+                    return recover<ErrorStmt>(std::move(start), follow_set_STATEMENT);
                 key_fields.emplace_back(std::move(expr));
                 break;
             }
@@ -691,10 +694,10 @@ std::unique_ptr<Stmt> Parser::parse_ImportStmt()
             /* [ 'ROWS' integer-constant ] */
             if (accept(TK_Rows)) {
                 stmt.rows = token();
-                if (token() == TK_DEC_INT or token() == TK_OCT_INT) {
+                if (is_integer(token().type)) {
                     consume();
                 } else {
-                    diag.e(token().pos) << "expected a decimal integer, got " << token().text << '\n';
+                    diag.e(token().pos) << "expected an integer, got " << token().text << '\n';
                     return recover<ErrorStmt>(std::move(start), follow_set_STATEMENT);
                 }
             }
@@ -1044,6 +1047,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
 
     for (;;) {
         Token op = token();
+        if (op == TK_TILDE or op == TK_Not) return lhs; // not a binary operator
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
         consume();
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 84ffb90..da449e2 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1927,7 +1927,7 @@ void Sema::operator()(DSVImportStmt &s)
     cfg.has_header = s.has_header;
     cfg.skip_header = s.skip_header;
     if (s.rows)
-        cfg.num_rows = atoi(*s.rows.text);
+        cfg.num_rows = strtoull(*s.rows.text, nullptr, 0);
 
     /* If character was provided by user, check that length is equal to 1. */
 #define SET_CHAR(NAME) \
-- 
2.43.0


From a17750c9e5875751b8822f8295dc520b4badec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 36/82] fix: printing of nested queries within conditions and
 values, and of key fields

---
 src/parse/ASTPrinter.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 1cd79e9..c7596fd 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -57,9 +57,12 @@ void ASTPrinter::operator()(Const<BinaryExpr> &e)
 void ASTPrinter::operator()(Const<QueryExpr> &e)
 {
     if (expand_nested_queries_) {
+        const bool was_nested = is_nested_;
+        is_nested_ = true;
         out << '(';
         (*this)(*e.query);
         out << ')';
+        is_nested_ = was_nested;
     } else {
         out << e.alias() << '.' << e.alias(); // name of artificial source followed by name of single result
     }
@@ -103,7 +106,8 @@ void ASTPrinter::operator()(Const<FromClause> &c)
 
 void ASTPrinter::operator()(Const<WhereClause> &c)
 {
-    out << "WHERE " << *c.where;
+    out << "WHERE ";
+    (*this)(*c.where);
 }
 
 void ASTPrinter::operator()(Const<GroupByClause> &c)
@@ -120,7 +124,8 @@ void ASTPrinter::operator()(Const<GroupByClause> &c)
 
 void ASTPrinter::operator()(Const<HavingClause> &c)
 {
-    out << "HAVING " << *c.having;
+    out << "HAVING ";
+    (*this)(*c.having);
 }
 
 void ASTPrinter::operator()(Const<OrderByClause> &c)
@@ -160,7 +165,9 @@ void ASTPrinter::operator()(Const<NotNullConstraint>&)
 
 void ASTPrinter::operator()(Const<CheckConditionConstraint> &c)
 {
-    out << "CHECK (" << *c.cond << ')';
+    out << "CHECK (";
+    (*this)(*c.cond);
+    out << ')';
 }
 
 void ASTPrinter::operator()(Const<ReferenceConstraint> &c)
@@ -253,7 +260,13 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         auto &field = *it;
         if (it != s.key_fields.cbegin()) out << ',';
         out << "\n    ";
+        /* Expressions other than an attribute name must be enclosed in parentheses. */
+        auto d = cast<const Designator>(field.get());
+        const bool needs_parens = is<const Constant>(*field) or is<const FnApplicationExpr>(*field) or
+                                  (d and d->has_explicit_table_name());
+        if (needs_parens) out << '(';
         (*this)(*field);
+        if (needs_parens) out << ')';
     }
     out << "\n);";
 }
@@ -320,7 +333,7 @@ void ASTPrinter::operator()(Const<InsertStmt> &s)
             switch (elem_it->first) {
                 case InsertStmt::I_Default: out << "DEFAULT";   break;
                 case InsertStmt::I_Null:    out << "NULL";      break;
-                case InsertStmt::I_Expr:    out << *elem_it->second;     break;
+                case InsertStmt::I_Expr:    (*this)(*elem_it->second); break;
             }
         }
         out << ')';
@@ -333,16 +346,23 @@ void ASTPrinter::operator()(Const<UpdateStmt> &s)
     out << "UPDATE " << s.table_name.text << "\nSET\n";
     for (auto it = s.set.cbegin(), end = s.set.cend(); it != end; ++it) {
         if (it != s.set.cbegin()) out << ",\n";
-        out << "    " << it->first.text << " = " << *it->second;
+        out << "    " << it->first.text << " = ";
+        (*this)(*it->second);
+    }
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
     }
-    if (s.where) out << '\n' << *s.where;
     out << ';';
 }
 
 void ASTPrinter::operator()(Const<DeleteStmt> &s)
 {
     out << "DELETE FROM " << s.table_name.text;
-    if (s.where) out << '\n' << *s.where;
+    if (s.where) {
+        out << '\n';
+        (*this)(*s.where);
+    }
     out << ';';
 }
 
-- 
2.43.0


From f2b5984221f9eac165fa8fbfb25f90219e3b52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 37/82] fix: DECIMAL(1) has the size of a byte

---
 include/mutable/catalog/Type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..37a6409 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -434,7 +434,8 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: return std::max(8U, ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS *
+                                                                                   precision))));
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From 3aeae3385a71ba8b67f7027fecc78ef5220a1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 38/82] fix: semantic analysis reports invalid functions,
 values, types and constants instead of failing

---
 src/mutable.cpp    |  2 +-
 src/parse/Sema.cpp | 68 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index 8b7f38a..9d0495e 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -265,7 +265,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         auto &T = DB.get_table(S->table_name.text.assert_not_none());
 
         DSVReader::Config cfg;
-        if (S->rows) cfg.num_rows = strtol(*S->rows.text, nullptr, 10);
+        if (S->rows) cfg.num_rows = strtoull(*S->rows.text, nullptr, 0);
         if (S->delimiter) cfg.delimiter = unescape(*S->delimiter.text)[1];
         if (S->escape) cfg.escape = unescape(*S->escape.text)[1];
         if (S->quote) cfg.quote = unescape(*S->quote.text)[1];
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index da449e2..5a318a3 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -356,7 +356,14 @@ void Sema::operator()(Designator &e)
         const Type * operator()(const Attribute *attr) const { return attr->type; }
         const Type * operator()(const Expr *expr) const { return expr->type_; }
     };
-    const PrimitiveType *pt = cast<const PrimitiveType>(std::visit(get_type(), e.target_));
+    const Type *target_type = std::visit(get_type(), e.target_);
+    if (not target_type->is_primitive()) {
+        if (not target_type->is_error()) // errors were already reported
+            diag.e(e.attr_name.pos) << "Attribute " << attr_name << " is not of primitive type.\n";
+        e.type_ = Type::Get_Error();
+        return;
+    }
+    const PrimitiveType *pt = as<const PrimitiveType>(target_type);
     e.type_ = pt;
 
     if (not is_result)
@@ -485,7 +492,13 @@ void Sema::operator()(Constant &e)
         case TK_DEC_INT:
             base += 2;
         case TK_OCT_INT: {
-            int64_t value = strtol(*e.tok.text, nullptr, base);
+            errno = 0;
+            int64_t value = strtoll(*e.tok.text, nullptr, base);
+            if (errno == ERANGE) {
+                diag.e(e.tok.pos) << "Integer constant " << e << " is out of range.\n";
+                e.type_ = Type::Get_Error();
+                return;
+            }
             if (value == int32_t(value))
                 e.type_ = Type::Get_Integer(Type::TY_Scalar, 4);
             else
@@ -508,8 +521,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(e.fn->tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
@@ -681,7 +694,10 @@ void Sema::operator()(FnApplicationExpr &e)
 
     switch (Ctx.stage) {
         case SemaContext::S_From:
-            M_unreachable("Function application in FROM clause is impossible");
+            /* There is no function application within a FROM clause, but within the values to insert. */
+            diag.e(d->attr_name.pos) << "Function application is not allowed here.\n";
+            e.type_ = Type::Get_Error();
+            return;
 
         case SemaContext::S_Where:
             if (e.func_->is_aggregate()) {
@@ -1229,8 +1245,10 @@ void Sema::operator()(FromClause &c)
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
             /* Convert scalar results to vectorials. */
-            for (auto &[_, result] : inner_ctx.results)
-                result.expr().type_ = as<const PrimitiveType>(result.expr().type())->as_vectorial();
+            for (auto &[_, result] : inner_ctx.results) {
+                if (auto pt = cast<const PrimitiveType>(result.expr().type()))
+                    result.expr().type_ = pt->as_vectorial();
+            }
             /* Check if the table name is already in use in other contexts. */
             bool unique = true;
             for (std::size_t i = 0; i < contexts_.size() - 1; ++i) {
@@ -1357,7 +1375,11 @@ void Sema::operator()(OrderByClause &c)
         if (e->contains_free_variables())
             diag.e(e->tok.pos) << *e << " contains free variable(s) (not yet supported).\n";
 
-        auto pt = as<const PrimitiveType>(e->type());
+        auto pt = cast<const PrimitiveType>(e->type());
+        if (not pt) {
+            diag.e(c.tok.pos) << "Cannot order by " << *e << ", has invalid type.\n";
+            continue;
+        }
 
         if (Ctx.needs_grouping) { // w/ grouping
             /* If we grouped, the grouping keys now have scalar type. */
@@ -1507,6 +1529,22 @@ void Sema::operator()(CreateTableStmt &s)
                                    << ".\n";
             return;
         }
+        /* Verify that values of this type can be represented. */
+        bool is_supported = true;
+        if (auto n = cast<const Numeric>(ty)) {
+            if (n->kind == Numeric::N_Int)
+                is_supported = n->precision == 1 or n->precision == 2 or n->precision == 4 or n->precision == 8;
+            else if (n->kind == Numeric::N_Decimal)
+                is_supported = n->precision >= 1 and n->precision <= Numeric::MAX_DECIMAL_PRECISION and
+                               n->scale <= n->precision;
+        } else if (auto cs = cast<const CharacterSequence>(ty)) {
+            is_supported = cs->length >= 1;
+        }
+        if (not is_supported) {
+            diag.e(attr->name.pos) << "Attribute " << attr->name.text << " cannot be defined with type " << *ty
+                                   << ".\n";
+            return;
+        }
         attr->type = ty->as_vectorial(); // convert potentially scalar type to vectorial
 
         /* Before we check the constraints, we must add this newly declared attribute to its table, and hence to the
@@ -1855,7 +1893,13 @@ void Sema::operator()(InsertStmt &s)
                 case InsertStmt::I_Expr: {
                     (*this)(*v.second);
                     if (v.second->type()->is_error()) continue;
-                    auto ty = as<const PrimitiveType>(v.second->type());
+                    auto ty = v.second->type();
+                    if (ty->is_none()) { // NULL
+                        if (attr.not_nullable)
+                            diag.e(s.table_name.pos) << "Value NULL is not valid for attribute " << attr.name
+                                                     << " declared as NOT NULL.\n";
+                        break;
+                    }
                     if (ty->is_boolean() and attr.type->is_boolean())
                         break;
                     if (ty->is_character_sequence() and attr.type->is_character_sequence())
@@ -1893,16 +1937,14 @@ void Sema::operator()(UpdateStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "UPDATE is not yet supported.\n";
 }
 
 void Sema::operator()(DeleteStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "DELETE is not yet supported.\n";
 }
 
 void Sema::operator()(DSVImportStmt &s)
-- 
2.43.0


From 21fa322f34f59643ba290c4806f88f901ea7f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 39/82] fix: lexer: a hexadecimal constant without digits
 before its exponent is invalid

---
 src/lex/Lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index c9824b1..aac18a5 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -167,8 +167,9 @@ Token Lexer::read_number()
         if (is  == Oct) is  = Dec; // there are no octal floating point constants
         if (has == Oct) has = Dec;
         if ('-' == c_ || '+' == c_) push();
-        empty = true;
-        while (is_dec(c_)) { empty = false; push(); }
+        bool empty_exponent = true;
+        while (is_dec(c_)) { empty_exponent = false; push(); }
+        empty |= empty_exponent; // both the mantissa and the exponent must have digits
     }
 
     if (empty or is != has) {
-- 
2.43.0


From e9f0eedcf7e744f3e10de3c207c9eed611859c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 40/82] fix: semantic analysis destroyed the constraints of
 tables and the key fields of indexes, and reported no error for an index
 method unavailable for a type

---
 src/parse/Sema.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 5a318a3..6b2e398 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1584,7 +1584,7 @@ void Sema::operator()(CreateTableStmt &s)
                 T->at(attribute_name).not_nullable = true;
             }
 
-            if (auto check = cast<CheckConditionConstraint>(c)) {
+            if (auto check = cast<CheckConditionConstraint>(c.get())) {
                 /* Verify that the type of the condition is boolean. */
                 /* TODO if the condition uses already mentioned attributes, we must add them to the sema context before
                  * invoking semantic analysis of the condition! */
@@ -1594,7 +1594,7 @@ void Sema::operator()(CreateTableStmt &s)
                     diag.e(check->tok.pos) << "Condition " << *check->cond << " is an invalid CHECK constraint.\n";
             }
 
-            if (auto ref = cast<ReferenceConstraint>(c)) {
+            if (auto ref = cast<ReferenceConstraint>(c.get())) {
                 if (has_reference)
                     diag.e(ref->tok.pos) << "Attribute " << attr->name.text << " must not have multiple references.\n";
                 has_reference = true;
@@ -1743,7 +1743,7 @@ void Sema::operator()(CreateIndexStmt &s)
             return;
         }
     }
-    auto attribute_name = cast<Designator>(s.key_fields.front())->attr_name.text.assert_not_none();
+    auto attribute_name = cast<Designator>(s.key_fields.front().get())->attr_name.text.assert_not_none();
     auto &attribute = table.at(attribute_name);
 
     /* Build index based on selected method and key type. */
@@ -1752,7 +1752,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From cf8f410c3aee74e8b718839b2acfc064af91d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 41/82] fix: execute_statement: DROP statements and CHECK
 constraints are unreachable

---
 src/mutable.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index 9d0495e..8daa5ec 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -222,7 +222,9 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
     } else if (auto S = cast<const ast::CreateDatabaseStmt>(&stmt)) {
         C.add_database(S->database_name.text.assert_not_none());
     } else if (auto S = cast<const ast::DropDatabaseStmt>(&stmt)) {
-        M_unreachable("not implemented");
+        auto db_name = S->database_name.text.assert_not_none();
+        if (not S->has_if_exists or C.has_database(db_name))
+            C.drop_database(db_name);
     } else if (auto S = cast<const ast::UseDatabaseStmt>(&stmt)) {
         auto &DB = C.get_database(S->database_name.text.assert_not_none());
         C.set_database_in_use(DB);
@@ -251,6 +253,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                         auto &ref_attr = ref_table.at(ref.attr_name.text.assert_not_none());
                         T.at(attribute_name).reference = &ref_attr;
                     },
+                    [](const CheckConditionConstraint&) { /* not enforced */ },
                     [](auto&&) { M_unreachable("constraint not implemented"); },
                 }, *c, tag<ConstASTConstraintVisitor>{});
             }
@@ -259,7 +262,19 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         T.layout(C.data_layout());
         T.store(C.create_store(T));
     } else if (auto S = cast<const ast::DropTableStmt>(&stmt)) {
-        M_unreachable("not implemented");
+        auto &DB = C.get_database_in_use();
+        for (auto &tok : S->table_names) {
+            auto table_name = tok->text.assert_not_none();
+            if (not S->has_if_exists or DB.has_table(table_name))
+                DB.drop_table(table_name);
+        }
+    } else if (auto S = cast<const ast::DropIndexStmt>(&stmt)) {
+        auto &DB = C.get_database_in_use();
+        for (auto &tok : S->index_names) {
+            auto index_name = tok->text.assert_not_none();
+            if (not S->has_if_exists or DB.has_index(index_name))
+                DB.drop_index(index_name);
+        }
     } else if (auto S = cast<const ast::DSVImportStmt>(&stmt)) {
         auto &DB = C.get_database_in_use();
         auto &T = DB.get_table(S->table_name.text.assert_not_none());
-- 
2.43.0


From c9f8a16632957f9e5ba711dc3ff29003777dc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 42/82] fix: semantic analysis fails on nested queries and
 grouping keys already reported as erroneous, and leaves CREATE INDEX
 unprintable

---
 src/parse/Sema.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 6b2e398..8406ac1 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -978,7 +978,9 @@ void Sema::operator()(QueryExpr &e)
     SemaContext inner_ctx = pop_context();
 
     /* TODO an EXISTS operator allows multiple results */
-    if (1 != inner_ctx.results.size()) {
+    auto &inner_select = as<const SelectClause>(*as<const SelectStmt>(*e.query).select);
+    const auto num_columns = inner_select.select.size() + inner_select.expanded_select_all.size();
+    if (1 != num_columns or 1 != inner_ctx.results.size()) {
         diag.e(e.tok.pos) << "Invalid expression:\n" << e << ",\nnested statement must return a single column.\n";
         e.type_ = Type::Get_Error();
         return;
@@ -1071,7 +1073,7 @@ void Sema::operator()(SelectClause &c)
                 if (auto ty = cast<const PrimitiveType>(d->type()))
                     d->type_ = ty->as_scalar();
                 else
-                    M_insist(d->type()->is_error(), "grouping key must be of primitive type");
+                    d->type_ = Type::Get_Error(); // invalid grouping key, already reported
                 auto attr_name = d->attr_name.text.assert_not_none();
                 auto &ref = c.expanded_select_all.emplace_back(std::move(d));
                 (*this)(*ref);
@@ -1701,8 +1703,7 @@ void Sema::operator()(CreateIndexStmt &s)
 
     /* Check that the index method exists. */
     if (not s.method) { // if method is not set, set to default
-        s.method = Token::CreateArtificial(TK_Default);
-        s.method.pos = s.table_name.pos;
+        s.method = Token(s.table_name.pos, C.pool("DEFAULT"), TK_Default);
     }
     switch(s.method.type) {
         case TK_Default: // ok
-- 
2.43.0


From 120951f1e6fd21c25d45f6d805b0392c73f8fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 43/82] fix: instructions, nested queries as index keys and
 DECIMAL(p, 0) are printed in a way which can be parsed again

---
 src/parse/ASTPrinter.cpp | 3 ++-
 src/parse/Parser.cpp     | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index c7596fd..1c62e22 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -180,7 +180,7 @@ void ASTPrinter::operator()(Const<ReferenceConstraint> &c)
 
 void ASTPrinter::operator()(Const<Instruction> &inst)
 {
-    out << inst.tok.text;
+    out << inst.tok.text << ';';
 }
 
 
@@ -263,6 +263,7 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         /* Expressions other than an attribute name must be enclosed in parentheses. */
         auto d = cast<const Designator>(field.get());
         const bool needs_parens = is<const Constant>(*field) or is<const FnApplicationExpr>(*field) or
+                                  is<const QueryExpr>(*field) or
                                   (d and d->has_explicit_table_name());
         if (needs_parens) out << '(';
         (*this)(*field);
diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index abe5fea..f77aa7d 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -2,6 +2,7 @@
 
 #include <cerrno>
 #include <cstdlib>
+#include <cstring>
 #include <initializer_list>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/catalog/Schema.hpp>
@@ -1166,7 +1167,11 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_DEC_INT)) goto error_recovery;
             if (accept(TK_COMMA)) {
                 scale = token();
-                if (not expect(TK_DEC_INT)) goto error_recovery;
+                const bool is_zero = scale.type == TK_OCT_INT and strcmp(*scale.text, "0") == 0; // `0` is an octal constant
+                if (is_zero)
+                    consume();
+                else if (not expect(TK_DEC_INT))
+                    goto error_recovery;
             }
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
-- 
2.43.0


From effa03cac73d325531a96b568090731e84c972ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 44/82] fix: CNF: disjunction and negation of the formulas TRUE
 and FALSE are wrong, to_sql() prints text which is no SQL or has another
 meaning

---
 src/IR/CNF.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 8ce3c18..d68a628 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -61,12 +61,7 @@ CNF cnf::operator&&(const CNF &lhs, const CNF &rhs)
 
 CNF cnf::operator||(const CNF &lhs, const CNF &rhs)
 {
-    CNF res;
-    if (lhs.size() == 0)
-        return rhs;
-    else if (rhs.size() == 0)
-        return lhs;
-
+    CNF res; // the empty CNF is TRUE and absorbing
     res.reserve(lhs.size() * rhs.size());
     for (auto &clause_left : lhs) {
         for (auto &clause_right : rhs)
@@ -85,7 +80,7 @@ CNF cnf::operator!(const cnf::Clause &clause)
 
 CNF cnf::operator!(const CNF &cnf)
 {
-    CNF res;
+    CNF res({Clause()}); // FALSE, the neutral element of the disjunction
     for (auto &clause : cnf)
         res = res or not clause;
     return res;
@@ -108,17 +103,19 @@ void cnf::Clause::to_sql(std::ostream &out) const
 {
     switch (size()) {
         case 0:
-            out << "TRUE";
+            out << "FALSE"; // the empty disjunction
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " OR ";
-                out << '(' << *it << ')';
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
@@ -132,13 +129,15 @@ void CNF::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " AND ";
-                out << *it;
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
-- 
2.43.0


From 673de47265daa1f2c55ccf1a7e56069e27871bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 45/82] fix: padding and strides of PAX blocks with a single
 row

---
 src/storage/DataLayoutFactory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..dc66856 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -180,7 +180,7 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
                 (num_rows_per_block / num_simd_lanes) * num_simd_lanes; // floor to multiple of possible number of SIMD lanes
         if (options::pax_pack_one_tuple_less and num_rows_per_block > 1)
             --num_rows_per_block;
-        num_blocks_per_row = (row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
+        num_blocks_per_row = (row_size_in_bits + num_not_byte_aligned * 7 + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
     }
 
     /*----- Compute column offsets. -----*/
@@ -212,14 +212,15 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     /*----- Construct DataLayout. -----*/
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
+    const bool has_repetition = num_rows_per_block != 1; // no stride without repetition
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], has_repetition ? types[idx]->size() : 0);
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ has_repetition ? null_bitmap_size_in_bits : 0
         );
     }
 
-- 
2.43.0


From 5046ab82e4ac767c3fde260824c7f817e4f7c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 46/82] fix: setting NULL bits and filling columns from a row
 other than the first

---
 src/storage/store_manip.cpp | 20 +++++++++++++-------
 src/storage/store_manip.hpp |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/storage/store_manip.cpp b/src/storage/store_manip.cpp
index a49923d..722591f 100644
--- a/src/storage/store_manip.cpp
+++ b/src/storage/store_manip.cpp
@@ -91,7 +91,7 @@ void generate_numeric_column(T *column_ptr, std::size_t num_distinct_values, std
         }
     }
 exit:
-    M_insist(ptr - column_ptr == long(count), "incorrect number of elements written");
+    M_insist(ptr - column_ptr == long(end), "incorrect number of elements written");
 }
 
 template<typename T>
@@ -171,11 +171,14 @@ void m::set_all_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t beg
     const auto end_bytes = (num_attrs * end) / 8U;
     const auto end_bits = (num_attrs * end) % 8U;
 
-    M_insist(begin_bytes != end_bytes, "the `begin`-th row and `end`-th row must be in different bytes");
+    if (begin_bytes == end_bytes) { // all bits are within a single byte
+        *(column_ptr + begin_bytes) |= (1U << end_bits) - (1U << begin_bits); // set respective bits to 1
+        return;
+    }
 
-    /* Set the `begin_bits` most significant bits to 1. */
+    /* Set all but the `begin_bits` least significant bits to 1. */
     if (begin_bits) {
-        *(column_ptr + begin_bytes) |= ~((1U << (8U - begin_bits)) - 1U); // set respective bits to 1
+        *(column_ptr + begin_bytes) |= ~((1U << begin_bits) - 1U); // set respective bits to 1
         ++begin_bytes; // advance to first byte which can be written entirely
     }
 
@@ -196,9 +199,12 @@ void m::set_all_not_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t
     const auto end_bytes = (num_attrs * end) / 8U;
     const auto end_bits = (num_attrs * end) % 8U;
 
-    M_insist(begin_bytes != end_bytes, "the `begin`-th row and `end`-th row must be in different bytes");
+    if (begin_bytes == end_bytes) { // all bits are within a single byte
+        *(column_ptr + begin_bytes) &= ~((1U << end_bits) - (1U << begin_bits)); // set respective bits to 0
+        return;
+    }
 
-    /* Set the `begin_bits` most significant bits to 0. */
+    /* Set all but the `begin_bits` least significant bits to 0. */
     if (begin_bits) {
         *(column_ptr + begin_bytes) &= (1U << begin_bits) - 1U; // set respective bits to 0
         ++begin_bytes; // advance to first byte which can be written entirely
@@ -206,7 +212,7 @@ void m::set_all_not_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t
 
     /* Set the `end_bits` least significant bits to 0. */
     if (end_bits)
-        *(column_ptr + end_bytes) &= ~((1U << (8U - end_bits)) - 1U); // set respective bits to 0
+        *(column_ptr + end_bytes) &= ~((1U << end_bits) - 1U); // set respective bits to 0
 
     const auto num_bytes = end_bytes - begin_bytes;
     std::memset(column_ptr + begin_bytes, uint8_t(0), num_bytes);
diff --git a/src/storage/store_manip.hpp b/src/storage/store_manip.hpp
index 227d515..3a7bbe4 100644
--- a/src/storage/store_manip.hpp
+++ b/src/storage/store_manip.hpp
@@ -45,7 +45,7 @@ fill_uniform(T *column_ptr, std::vector<T> values, std::size_t begin, std::size_
         }
     }
 exit:
-    M_insist(ptr - column_ptr == long(count), "incorrect number of elements written");
+    M_insist(ptr - column_ptr == long(end), "incorrect number of elements written");
 }
 
 /** Generates data for the column at address `column_ptr` from `begin`-th row (including) to `end`-th row (excluding)
-- 
2.43.0


From dc7e8605cae2cfa08ffcacf86c06f041a775e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 47/82] fix: long strings and many attributes in the stack
 machine

---
 src/backend/StackMachine.cpp | 25 ++++++++++++++++++-------
 src/backend/StackMachine.hpp | 13 ++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 3851c54..e2453ed 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1,6 +1,7 @@
 #include "backend/StackMachine.hpp"
 
 #include "backend/Interpreter.hpp"
+#include <cstring>
 #include <ctime>
 #include <functional>
 #include <mutable/util/fn.hpp>
@@ -869,6 +870,16 @@ void StackMachine::operator()(Tuple **tuples) const
     top_ = 0; // points to the top of the stack, i.e. the top-most entry
     op_ = ops.cbegin();
     auto p_mem = memory_; // pointer to free memory; used like a linear allocator
+    additional_memory_.clear();
+
+    /* Allocates `size` bytes of memory, which remain valid until the next evaluation. */
+    auto allocate = [&](std::size_t size) -> uint8_t* {
+        if (size > std::size_t(memory_ + SIZE_OF_MEMORY - p_mem)) // no space left in `memory_`
+            return additional_memory_.emplace_back(std::make_unique<uint8_t[]>(size)).get();
+        auto ptr = p_mem;
+        p_mem += size;
+        return ptr;
+    };
 
 #define NEXT goto *labels[std::size_t(*op_++)]
 
@@ -1139,10 +1150,10 @@ Ld_s: {
     uint64_t length = TOP.as_i();
     POP();
     void *ptr = TOP.as_p();
-    strncpy(reinterpret_cast<char*>(p_mem), reinterpret_cast<char*>(ptr), length);
-    p_mem[length] = 0; // always add terminating NUL byte, no matter whether this is a CHAR or VARCHAR
-    TOP = p_mem; // a pointer
-    p_mem += length + 1;
+    uint8_t *str = allocate(length + 1);
+    strncpy(reinterpret_cast<char*>(str), reinterpret_cast<char*>(ptr), length);
+    str[length] = 0; // always add terminating NUL byte, no matter whether this is a CHAR or VARCHAR
+    TOP = str; // a pointer
 }
 NEXT;
 
@@ -1294,7 +1305,8 @@ Cat_s: {
     }
 
     M_insist(not rhs_is_null and not lhs_is_null);
-    char *dest = reinterpret_cast<char*>(p_mem);
+    const std::size_t length = strlen(lhs.as<char*>()) + strlen(rhs.as<char*>());
+    char *dest = reinterpret_cast<char*>(allocate(length + 1));
     TOP = dest;
     /* Append LHS. */
     for (auto src = lhs.as<char*>(); *src; ++src, ++dest)
@@ -1302,8 +1314,7 @@ Cat_s: {
     /* Append RHS. */
     for (auto src = rhs.as<char*>(); *src; ++src, ++dest)
         *dest = *src;
-    *dest++ = 0; // terminating NUL byte
-    p_mem = reinterpret_cast<uint8_t*>(dest);
+    *dest = 0; // terminating NUL byte
 }
 NEXT;
 
diff --git a/src/backend/StackMachine.hpp b/src/backend/StackMachine.hpp
index 86b2bfe..352b1c6 100644
--- a/src/backend/StackMachine.hpp
+++ b/src/backend/StackMachine.hpp
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cstdint>
+#include <memory>
 #include <mutable/catalog/Schema.hpp>
 #include <mutable/IR/Tuple.hpp>
+#include <vector>
 
 
 namespace m {
@@ -29,7 +31,7 @@ struct StackMachine
 
     static constexpr std::size_t SIZE_OF_MEMORY = 4 * 1024; // 4 KiB
 
-    enum class Opcode : uint8_t
+    enum class Opcode : uint32_t
     {
 #define M_OPCODE(CODE, ...) CODE,
 #include "tables/Opcodes.tbl"
@@ -68,6 +70,7 @@ struct StackMachine
     mutable decltype(ops)::const_iterator op_; ///< the next operation to execute
     mutable std::size_t top_ = 0; ///< the top of the stack
     mutable uint8_t memory_[SIZE_OF_MEMORY]; ///< memory usable by the stack machine, e.g. to work on BLOBs
+    mutable std::vector<std::unique_ptr<uint8_t[]>> additional_memory_; ///< memory used once `memory_` is exhausted
 
     public:
     /** Create a `StackMachine` that does not accept input. */
@@ -129,14 +132,14 @@ struct StackMachine
      * the opcode `Pop`, we will define a function `emit_Pop()`, that appends the `Pop` opcode to the current opcode
      * sequence.  For opcodes that require an argument, a function with the respective parameter is defined and that
      * parameter is inserted into the opcode sequence.  For example, the opcode `Ld_Ctx` requires a single parameter
-     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint8_t idx)`, that first
+     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint32_t idx)`, that first
      * appends the `Ld_Ctx` opcode to the opcode sequence and then appends the `idx` parameter to the opcode sequence.
      */
 #define SELECT(XXX, _1, _2, _3, FN, ...) FN(__VA_ARGS__)
 #define ARGS_0(XXX, ...)
-#define ARGS_1(I, XXX, ARG0, ...) uint8_t ARG0
-#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint8_t ARG0, uint8_t ARG1
-#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint8_t ARG0, uint8_t ARG1, uint8_t ARG2
+#define ARGS_1(I, XXX, ARG0, ...) uint32_t ARG0
+#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint32_t ARG0, uint32_t ARG1
+#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint32_t ARG0, uint32_t ARG1, uint32_t ARG2
 #define ARGS(...) SELECT(__VA_ARGS__, ARGS_3, ARGS_2, ARGS_1, ARGS_0, __VA_ARGS__)
 #define PUSH_0(XXX, ...)
 #define PUSH_1(I, XXX, ARG0, ...) \
-- 
2.43.0


From 87faf58bac394d9996d41a0991b5bf46ef92188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 48/82] fix: writers interleaved with other writers or drops

---
 include/mutable/mutable.hpp | 1 +
 src/mutable.cpp             | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mutable/mutable.hpp b/include/mutable/mutable.hpp
index 144fe84..430c6b2 100644
--- a/include/mutable/mutable.hpp
+++ b/include/mutable/mutable.hpp
@@ -119,6 +119,7 @@ struct M_EXPORT StoreWriter
     Schema S; ///< the schema of the tuples to read/write
     mutable std::unique_ptr<m::StackMachine> writer_; ///< the writing `StackMachine`
     mutable const storage::DataLayout *layout_ = nullptr; ///< the last seen `DataLayout`; used to observe updates
+    mutable std::size_t next_row_ = 0; ///< the row `writer_` is going to write next; used to observe other writers
 
     public:
     StoreWriter(Store &store);
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 8daa5ec..f867fdc 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -470,11 +470,14 @@ m::StoreWriter::~StoreWriter() { }
 void m::StoreWriter::append(const Tuple &tup) const
 {
     store_.append();
-    if (layout_ != &store_.table().layout()) {
+    const std::size_t row_id = store_.num_rows() - 1;
+    if (layout_ != &store_.table().layout() or next_row_ != row_id) {
+        /* The data layout was updated or rows were appended or dropped by someone else, recompile stack machine. */
         layout_ = &store_.table().layout();
         writer_ = std::make_unique<m::StackMachine>(m::Interpreter::compile_store(S, store_.memory().addr(), *layout_,
-                                                                                  S, store_.num_rows() - 1));
+                                                                                  S, row_id));
     }
+    next_row_ = row_id + 1;
 
     Tuple *args[] = { const_cast<Tuple*>(&tup) };
     (*writer_)(args);
-- 
2.43.0


From 780c1b2a19ee30fa0f4692f03cf517c57627484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 49/82] fix: capacity of stores respects the data layout

---
 include/mutable/catalog/Schema.hpp |  5 +++++
 include/mutable/storage/Store.hpp  |  3 +++
 src/storage/ColumnStore.hpp        |  2 +-
 src/storage/PaxStore.cpp           |  8 +++++++-
 src/storage/PaxStore.hpp           |  2 +-
 src/storage/RowStore.hpp           |  2 +-
 src/storage/Store.cpp              | 12 ++++++++++++
 7 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..654b616 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -578,6 +578,8 @@ struct M_EXPORT Table
 
     /** Returns a reference to the physical data layout. */
     virtual const storage::DataLayout & layout() const = 0;
+    /** Returns `true` iff the physical data layout was set. */
+    virtual bool has_layout() const = 0;
     /** Sets the physical data layout for this table. */
     virtual void layout(storage::DataLayout &&new_layout) = 0;
     /** Sets the physical data layout for this table by calling `factory.make()`. */
@@ -700,6 +702,8 @@ struct M_EXPORT ConcreteTable : Table
 
     /** Returns a reference to the physical data layout. */
     const storage::DataLayout & layout() const override { M_insist(bool(layout_)); return layout_; }
+    /** Returns `true` iff the physical data layout was set. */
+    bool has_layout() const override { return bool(layout_); }
     /** Sets the physical data layout for this table. */
     void layout(storage::DataLayout &&new_layout) override { layout_ = std::move(new_layout); }
     /** Sets the physical data layout for this table by calling `factory.make()`. */
@@ -795,6 +799,7 @@ struct TableDecorator : Table
     virtual void store(std::unique_ptr<Store> new_store) override { table_->store(std::move(new_store)); }
 
     virtual const storage::DataLayout & layout() const override { return table_->layout(); }
+    virtual bool has_layout() const override { return table_->has_layout(); }
     virtual void layout(storage::DataLayout &&new_layout) override { table_->layout(std::move(new_layout)); }
     virtual void layout(const storage::DataLayoutFactory &factory) override { table_->layout(factory); }
 
diff --git a/include/mutable/storage/Store.hpp b/include/mutable/storage/Store.hpp
index c055ffe..45708fd 100644
--- a/include/mutable/storage/Store.hpp
+++ b/include/mutable/storage/Store.hpp
@@ -26,6 +26,9 @@ struct M_EXPORT Store
     protected:
     Store(const Table &table) : table_(table) {}
 
+    /** Returns `true` iff \p num_rows rows in the data layout of the table fit into the memory of this store. */
+    bool fits(std::size_t num_rows) const;
+
     public:
     Store(const Store &) = delete;
 
diff --git a/src/storage/ColumnStore.hpp b/src/storage/ColumnStore.hpp
index 5c49a0a..19f1060 100644
--- a/src/storage/ColumnStore.hpp
+++ b/src/storage/ColumnStore.hpp
@@ -33,7 +33,7 @@ struct ColumnStore : Store
     std::size_t row_size() const { return row_size_; }
 
     void append() override {
-        if (num_rows_ == capacity_)
+        if (num_rows_ == capacity_ or not fits(num_rows_ + 1))
             throw std::logic_error("row store exceeds capacity");
         ++num_rows_;
     }
diff --git a/src/storage/PaxStore.cpp b/src/storage/PaxStore.cpp
index 61b76ad..d479589 100644
--- a/src/storage/PaxStore.cpp
+++ b/src/storage/PaxStore.cpp
@@ -85,7 +85,13 @@ void PaxStore::compute_block_offsets()
     M_insist(offsets_[num_attrs] + num_attrs * num_rows_per_block_ <= block_size_ * 8);
 
     /* Compute capacity. */
-    capacity_ = (ALLOCATION_SIZE / block_size_) * num_rows_per_block_;
+    if (num_rows_per_block_) {
+        capacity_ = (ALLOCATION_SIZE / block_size_) * num_rows_per_block_;
+    } else { // a single row spans multiple blocks
+        const uint64_t max_row_size = row_size_ + num_not_byte_aligned * 7; // consider worst case padding
+        const uint64_t num_blocks_per_row = (max_row_size + block_size_ * 8UL - 1UL) / (block_size_ * 8UL);
+        capacity_ = (ALLOCATION_SIZE / block_size_) / num_blocks_per_row;
+    }
 
     delete[] attrs;
 }
diff --git a/src/storage/PaxStore.hpp b/src/storage/PaxStore.hpp
index 9756067..9f8fff9 100644
--- a/src/storage/PaxStore.hpp
+++ b/src/storage/PaxStore.hpp
@@ -42,7 +42,7 @@ struct PaxStore : Store
     uint32_t offset(const Attribute &attr) const { return offset(attr.id); }
 
     void append() override {
-        if (num_rows_ == capacity_)
+        if (num_rows_ == capacity_ or not fits(num_rows_ + 1))
             throw std::logic_error("row store exceeds capacity");
         ++num_rows_;
     }
diff --git a/src/storage/RowStore.hpp b/src/storage/RowStore.hpp
index 95563b7..be89d06 100644
--- a/src/storage/RowStore.hpp
+++ b/src/storage/RowStore.hpp
@@ -40,7 +40,7 @@ struct RowStore : Store
     std::size_t row_size() const { return row_size_; }
 
     void append() override {
-        if (num_rows_ == capacity_)
+        if (num_rows_ == capacity_ or not fits(num_rows_ + 1))
             throw std::logic_error("row store exceeds capacity");
         ++num_rows_;
     }
diff --git a/src/storage/Store.cpp b/src/storage/Store.cpp
index b781197..012ffa7 100644
--- a/src/storage/Store.cpp
+++ b/src/storage/Store.cpp
@@ -1,6 +1,9 @@
 #include "storage/Store.hpp"
 
+#include <algorithm>
 #include <cmath>
+#include <mutable/catalog/Schema.hpp>
+#include <mutable/storage/DataLayout.hpp>
 
 
 using namespace m;
@@ -10,6 +13,15 @@ using namespace m;
  * Store
  *====================================================================================================================*/
 
+bool Store::fits(std::size_t num_rows) const
+{
+    if (not table().has_layout()) return true;
+    auto &layout = table().layout();
+    const std::size_t rows_per_instance = layout.child().num_tuples();
+    const std::size_t num_instances = (num_rows + rows_per_instance - 1) / rows_per_instance;
+    return num_instances <= memory().size() / std::max<std::size_t>(1, layout.stride_in_bits() / 8);
+}
+
 M_LCOV_EXCL_START
 void Store::dump() const { dump(std::cerr); }
 M_LCOV_EXCL_STOP
-- 
2.43.0


From 32affbfde3394210116634a11cdd7f14c516768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:23 +0000
Subject: [PATCH 50/82] fix: import of delimited text: excess cells, malformed
 or unrepresentable values, empty last cells, quoted cells of ignored columns,
 bytes equal to EOF

---
 include/mutable/io/Reader.hpp |  27 ++++--
 src/io/DSVReader.cpp          | 178 ++++++++++++++++++++++------------
 2 files changed, 133 insertions(+), 72 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..d428295 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -71,7 +71,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     Config cfg_;
 
     Position pos;
-    char c;
+    int c; ///< the current character as `unsigned char`, or `EOF`
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -118,19 +118,26 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     void push() { buf.push_back(c); step(); }
 
-    bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
+    bool is(char chr) const { return c == std::char_traits<char>::to_int_type(chr); }
+    bool is_end_of_row() const { return c == EOF or c == '\n'; }
+    bool is_end_of_cell() const { return is_end_of_row() or is(config().delimiter); }
+
+    bool accept(char chr) { if (is(chr)) { step(); return true; } return false; }
 
     void discard_cell() {
-        if (c == config().quote) {
-            step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
-            accept(config().quote);
-        } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+        if (is(config().quote)) {
+            buf.clear();
+            read_quoted();
+        }
+        while (not is_end_of_cell()) { step(); }
     }
-    void discard_row() { while (c != EOF and c != '\n') { step(); } }
+    void discard_row() { while (not is_end_of_row()) { step(); } }
 
-    int64_t read_unsigned_int();
+    /** Reads a quoted string, starting at the opening quote, to `buf`. */
+    void read_quoted();
+    /** Reads a sequence of decimal digits to \p i, as a negative number if \p is_neg.  Returns `false` iff the number is
+     * not representable, `true` otherwise. */
+    bool read_digits(bool is_neg, int64_t &i);
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..a734e72 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -20,6 +20,31 @@ using namespace m;
 using namespace m::storage;
 
 
+namespace {
+
+/** Returns `true` iff \p str, a syntactically correct date or datetime literal, denotes an existing date and time. */
+bool is_valid_date(const char *str)
+{
+    int year, month, day, hour = 0, minute = 0, second = 0;
+    if (sscanf(str, "d'%d-%d-%d %d:%d:%d'", &year, &month, &day, &hour, &minute, &second) < 3)
+        return false;
+    if (year == 0 or month < 1 or month > 12 or day < 1)
+        return false;
+    if (day > (month == 2 ? 29 : month == 4 or month == 6 or month == 9 or month == 11 ? 30 : 31))
+        return false;
+    return hour <= 23 and minute <= 59 and second <= 59;
+}
+
+/** Returns `true` iff \p i is representable in the size of the type \p ty. */
+bool fits(int64_t i, const Numeric &ty)
+{
+    if (ty.size() >= 64) return true;
+    const auto max = std::numeric_limits<int64_t>::max() >> (64 - ty.size());
+    return -max - 1 <= i and i <= max;
+}
+
+}
+
 DSVReader::DSVReader(const Table &table, Config cfg, Diagnostic &diag, Scheduler::Transaction *transaction)
     : Reader(table, diag, transaction)
     , cfg_(cfg)
@@ -53,7 +78,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     auto read_cell = [&]() -> ThreadSafePooledString {
         buf.clear();
-        while (c != EOF and c != '\n' and c != config().delimiter) {
+        while (not is_end_of_cell()) {
             buf.push_back(c);
             step();
         }
@@ -70,8 +95,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 attr = &table.at(name);
             } catch (std::out_of_range) { /* nothing to do */ }
             columns.push_back(attr);
-            if (c == config().delimiter)
-                step(); // discard delimiter
+            accept(config().delimiter); // discard delimiter
         }
         M_insist(c == EOF or c == '\n');
         step();
@@ -79,8 +103,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
-            c = '\n';
+            discard_row(); // skip entire line
             step(); // skip newline
         }
     }
@@ -111,20 +134,22 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and is_end_of_row()) or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
                 col_idx = col->id;
                 (*this)(*col->type); // dynamic dispatch based on column type
-                discard_cell(); // discard remainder of the cell
+                while (not is_end_of_cell()) step(); // discard remainder of the cell
             } else {
                 discard_cell();
             }
         }
-        if (c != EOF and c != '\n') {
+        if (not is_end_of_row()) {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the row with excess cells
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
@@ -155,14 +180,16 @@ end_of_row:
 void DSVReader::operator()(Const<Boolean>&)
 {
     buf.clear();
-    while (c != EOF and c != '\n' and c != config().delimiter) { push(); }
+    while (not is_end_of_cell()) { push(); }
     buf.push_back(0);
     if (streq("TRUE", &buf[0]))
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
@@ -172,39 +199,15 @@ void DSVReader::operator()(Const<CharacterSequence>&)
      * supported.  Note that EOF implicitly closes quoted strings.
      * Source: https://tools.ietf.org/html/rfc4180#section-2 */
     buf.clear();
-    if (accept(config().quote)) {
-        if (config().escape == config().quote) { // RFC 4180
-            while (c != EOF) {
-                if (c != config().quote) {
-                    push();
-                } else {
-                    step();
-                    if (c == config().quote)
-                        push();
-                    else
-                        break;
-                }
-            }
-        } else {
-            while (c != EOF) {
-                if (c == config().quote) {
-                    step();
-                    break;
-                } else if (c == config().escape) {
-                    step();
-                    push();
-                } else {
-                    push();
-                }
-            }
-        }
+    if (is(config().quote)) {
+        read_quoted();
     } else {
-        while (c != EOF and c != '\n' and c != config().delimiter) {
-            if (c == config().quote) {
+        while (not is_end_of_cell()) {
+            if (is(config().quote)) {
                 diag.e(pos) << "WARNING: Illegal character " << config().quote << " found in unquoted string.\n";
                 /* Entire cell is discarded. */
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             } else
                 push();
@@ -232,11 +235,13 @@ void DSVReader::operator()(Const<Date>&)
     if ('-' == c) push(); else goto invalid;
     DIGITS(2);
 #undef DIGITS
-    if (has_quote and not accept(config().quote))
-        goto invalid;
 
     buf.push_back('\'');
     buf.push_back(0);
+    if (not is_valid_date(buf.data()))
+        goto invalid;
+    if (has_quote and not accept(config().quote))
+        goto invalid;
 
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE))));
     return;
@@ -244,6 +249,8 @@ void DSVReader::operator()(Const<Date>&)
 invalid:
     diag.e(pos) << "WARNING: Invalid date.\n";
     tup.null(col_idx);
+    if (has_quote) // the cell ends with the closing quote
+        while (not is_end_of_row() and not accept(config().quote)) step();
 }
 
 void DSVReader::operator()(Const<DateTime>&)
@@ -268,17 +275,21 @@ void DSVReader::operator()(Const<DateTime>&)
     if (':' == c) push(); else goto invalid;
     DIGITS(2);
 #undef DIGITS
-    if (has_quote and not accept(config().quote))
-        goto invalid;
 
     buf.push_back('\'');
     buf.push_back(0);
+    if (not is_valid_date(buf.data()))
+        goto invalid;
+    if (has_quote and not accept(config().quote))
+        goto invalid;
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE_TIME))));
     return;
 
 invalid:
     diag.e(pos) << "WARNING: Invalid datetime.\n";
     tup.null(col_idx);
+    if (has_quote) // the cell ends with the closing quote
+        while (not is_end_of_row() and not accept(config().quote)) step();
 }
 
 void DSVReader::operator()(Const<Numeric> &ty)
@@ -290,14 +301,19 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            int64_t i;
+            const bool is_valid = is_dec(c) and read_digits(is_neg, i);
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
+                return;
+            }
+            if (not is_valid or not fits(i, ty)) {
+                diag.e(pos) << "WARNING: Expected an integer of type " << ty << ".\n";
+                tup.null(col_idx);
                 return;
             }
-            if (is_neg) i = -i;
             tup.set(col_idx, i);
             break;
         }
@@ -310,9 +326,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            int64_t d = 0;
+            bool is_valid = is_dec(c) or c == '.';
+            is_valid = read_digits(is_neg, d) and is_valid;
+            is_valid = not __builtin_mul_overflow(d, powi(int64_t(10), scale), &d) and is_valid;
             if (accept('.')) {
                 /* Read post dot digits. */
                 int64_t post_dot = 0;
@@ -322,32 +339,36 @@ void DSVReader::operator()(Const<Numeric> &ty)
                     step();
                     n--;
                 }
-                post_dot *= powi(10, n);
+                post_dot *= powi(int64_t(10), n);
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
-                d += d >= 0 ? post_dot : -post_dot;
+                is_valid = not __builtin_add_overflow(d, is_neg ? -post_dot : post_dot, &d) and is_valid;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
+                return;
+            }
+            if (not is_valid or not fits(d, ty)) {
+                diag.e(pos) << "WARNING: Expected a decimal of type " << ty << ".\n";
+                tup.null(col_idx);
                 return;
             }
-            if (is_neg) d = -d;
             tup.set(col_idx, d);
             break;
         }
 
         case Numeric::N_Float: {
             std::string float_str;
-            while(c != EOF and c != '\n' and c != config().delimiter) {
+            while (not is_end_of_cell()) {
                 float_str += c;
                 step();
             }
             char* end;
             errno = 0;
             double d = std::strtod(float_str.c_str(), &end);
-            if (*end != '\0') {
+            if (end == float_str.c_str() or end != float_str.c_str() + float_str.length()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a floating-point number.\n";
                 tup.null(col_idx);
                 return;
@@ -357,7 +378,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 d = std::numeric_limits<double>::max();
             } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = std::numeric_limits<double>::lowest();
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
@@ -373,12 +394,45 @@ void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
 
-int64_t DSVReader::read_unsigned_int()
+void DSVReader::read_quoted()
+{
+    step(); // skip opening quote
+    if (config().escape == config().quote) { // RFC 4180
+        while (c != EOF) {
+            if (not is(config().quote)) {
+                push();
+            } else {
+                step();
+                if (is(config().quote))
+                    push();
+                else
+                    break;
+            }
+        }
+    } else {
+        while (c != EOF) {
+            if (is(config().quote)) {
+                step();
+                break;
+            } else if (is(config().escape)) {
+                step();
+                if (c != EOF)
+                    push();
+            } else {
+                push();
+            }
+        }
+    }
+}
+
+bool DSVReader::read_digits(bool is_neg, int64_t &i)
 {
-    int64_t i = 0;
+    bool is_representable = true;
+    i = 0;
     while (is_dec(c)) {
-        i = 10 * i + c - '0';
+        is_representable = is_representable and not __builtin_mul_overflow(i, int64_t(10), &i)
+                                            and not __builtin_add_overflow(i, int64_t(is_neg ? '0' - c : c - '0'), &i);
         step();
     }
-    return i;
+    return is_representable;
 }
-- 
2.43.0


From da9d802d51aabde268574b834cacc8ebc5a6dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 51/82] fix: the datetime one second before the epoch is
 rejected as out of bounds

---
 src/backend/Interpreter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index ab1cddf..459cd28 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -290,8 +290,9 @@ struct Interpreter : Backend, ConstOperatorVisitor
 #endif
 
                 /* Convert date time from std::tm to time_t (seconds since epoch). */
+                errno = 0;
                 const time_t time = timegm(&tm);
-                M_insist(time != -1, "datetime out of bounds");
+                M_insist(time != -1 or errno != EOVERFLOW, "datetime out of bounds"); // -1 is one second before the epoch
 
 #if defined(__APPLE__)
                 return int64_t(time - cycles * SECONDS_PER_400_YEAR_CYCLE);
-- 
2.43.0


From 6913b54d1541c4759f5b7faee1c435d557a951b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 52/82] fix: recursive model index: lookups whose prediction is
 past the end, repeated finalization, extreme keys

---
 include/mutable/storage/Index.hpp | 20 ++++++++++++++++----
 src/storage/Index.cpp             |  3 ++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..8ebe18a 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
@@ -252,6 +252,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
      * index is not finalized. */
     const_iterator lower_bound(const key_type key) const override {
         if (not base_type::finalized()) throw m::exception("Index is not finalized.");
+        if (base_type::num_entries() == 0) return base_type::end();
         return lower_bound_exponential_search(base_type::begin() + predict(key), key);
     }
 
@@ -260,6 +261,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
      * is not finalized. */
     const_iterator upper_bound(const key_type key) const override {
         if (not base_type::finalized()) throw m::exception("Index is not finalized.");
+        if (base_type::num_entries() == 0) return base_type::end();
         return upper_bound_exponential_search(base_type::begin() + predict(key), key);
     }
 
@@ -267,10 +269,20 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     void dump() const override { dump(std::cerr); }
 
     private:
+    /** Converts \p prediction, which may be NaN, to a position in [0, \p max]. */
+    static std::size_t clamp(const double prediction, const std::size_t max) {
+        if (not (prediction > 0)) return 0;
+        return prediction < max ? static_cast<std::size_t>(prediction) : max;
+    }
+    /** Predicts the id of the segment of \p key. */
+    std::size_t segment(const key_type key, const std::size_t num_segments) const {
+        return clamp(models_[0](key), num_segments - 1);
+    }
+    /** Predicts the position of \p key among the entries of a non-empty index. */
     std::size_t predict(const key_type key) const {
-        auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
-        return static_cast<std::size_t>(pred);
+        M_insist(base_type::num_entries());
+        const auto segment_id = segment(key, models_.size() - 1);
+        return clamp(models_[segment_id + 1](key), base_type::num_entries() - 1);
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index f16039b..d8c86aa 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -170,6 +170,7 @@ void RecursiveModelIndex<Key>::finalize()
     auto end = base_type::end();
     std::size_t n_keys = std::distance(begin, end);
     std::size_t n_models = std::max<std::size_t>(1, n_keys * options::rmi_model_entry_ratio);
+    models_.clear(); // discard the models of a previous call
     models_.reserve(n_models + 1);
 
     /* Train first layer. */
@@ -183,7 +184,7 @@ void RecursiveModelIndex<Key>::finalize()
     );
 
     /* Train second layer. */
-    auto get_segment_id = [&](entry_type e) { return std::clamp<double>(models_[0](e.first), 0, n_models - 1);  };
+    auto get_segment_id = [&](entry_type e) { return segment(e.first, n_models); };
     std::size_t segment_start = 0;
     std::size_t segment_id = 0;
     for (std::size_t i = 0; i != n_keys; ++i) {
-- 
2.43.0


From 11bf6f1baea63feff266258abca28471433e0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 53/82] fix: INSERT: DEFAULT keeps the value of the previous
 row or puts NULL into NOT NULL attributes; NULL with hidden attributes;
 indexes remain valid after import or INSERT by execute_statement()

---
 src/catalog/DatabaseCommand.cpp |  7 +++++--
 src/mutable.cpp                 | 11 ++++++++++-
 src/parse/Sema.cpp              |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..d4e6b62 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -155,11 +155,11 @@ void InsertRecords::execute(Diagnostic&)
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
-                    /* nothing to be done, Tuples are initialized to default values */
+                    /* nothing to be done, Tuples are reset to default values */
                     break;
 
                 case ast::InsertStmt::I_Expr:
@@ -170,6 +170,7 @@ void InsertRecords::execute(Diagnostic&)
             }
         }
         Tuple *args[] = { &tup };
+        tup.clear(); // reset to default values
         get_tuple(args);
 
         /*----- set timestamps if available. -----*/
@@ -212,6 +213,8 @@ void ImportDSV::execute(Diagnostic &diag)
             diag.err() << std::endl;
         } else {
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
+            /* Invalidate all indexes on the table. */
+            C.get_database_in_use().invalidate_indexes(table_.name());
         }
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
diff --git a/src/mutable.cpp b/src/mutable.cpp
index f867fdc..1141120 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -205,7 +205,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                         break;
 
                     case ast::InsertStmt::I_Default:
-                        /* nothing to be done, Tuples are initialized to default values */
+                        /* nothing to be done, Tuples are reset to default values */
                         break;
 
                     case ast::InsertStmt::I_Expr:
@@ -216,9 +216,12 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                 }
             }
             Tuple *args[] = { &tup };
+            tup.clear(); // reset to default values
             get_tuple(args);
             W.append(tup);
         }
+        /* Invalidate all indexes on the table. */
+        DB.invalidate_indexes(T.name());
     } else if (auto S = cast<const ast::CreateDatabaseStmt>(&stmt)) {
         C.add_database(S->database_name.text.assert_not_none());
     } else if (auto S = cast<const ast::DropDatabaseStmt>(&stmt)) {
@@ -301,6 +304,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                 diag.err() << std::endl;
             } else {
                 M_TIME_EXPR(R(file, *S->path.text), "Read DSV file", timer);
+                /* Invalidate all indexes on the table. */
+                DB.invalidate_indexes(T.name());
             }
         } catch (m::invalid_argument e) {
             diag.err() << "Error reading DSV file: " << e.what() << "\n";
@@ -423,6 +428,10 @@ void m::load_from_CSV(Diagnostic &diag, Table &table, const std::filesystem::pat
         diag.err() << std::endl;
     } else {
         R(file, path.c_str()); // read the file
+        /* Invalidate all indexes on the table. */
+        auto &C = Catalog::Get();
+        if (C.has_database_in_use() and C.get_database_in_use().has_table(table.name()))
+            C.get_database_in_use().invalidate_indexes(table.name());
     }
 
     if (diag.num_errors() != 0)
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 8406ac1..767fac8 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1924,7 +1924,10 @@ void Sema::operator()(InsertStmt &s)
                 }
 
                 case InsertStmt::I_Default:
-                    /* TODO has default? */
+                    /* There are no user-defined default values, hence the default value is NULL. */
+                    if (attr.not_nullable)
+                        diag.e(s.table_name.pos) << "Attribute " << attr.name
+                                                 << " declared as NOT NULL has no default value.\n";
                     break;
             }
         }
-- 
2.43.0


From b037f1c650faca9d0a264d897be34ba770493b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 54/82] fix: write_partial_plans_JSON() writes invalid JSON
 from the second call on

---
 src/IR/PartialPlanGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/PartialPlanGenerator.cpp b/src/IR/PartialPlanGenerator.cpp
index df84594..bc40a9c 100644
--- a/src/IR/PartialPlanGenerator.cpp
+++ b/src/IR/PartialPlanGenerator.cpp
@@ -118,10 +118,10 @@ void PartialPlanGenerator::write_partial_plans_JSON(std::ostream &out, const Que
      *      { A(BC) }   --> [ "@ A @ B C" ]
      *      { (AB)C }   --> [ "@ @ A B C" ]
      */
+    bool is_first = true;
     auto write_partial_plan = [&](const partial_plan_type &partial_plans) {
         M_insist(not partial_plans.empty());
 
-        static bool is_first = true;
         if (is_first)
             is_first = false;
         else
-- 
2.43.0


From 63810c17558ff0328e56bc90aeca36d98ffe917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 55/82] fix: beam search: overwrites the cost of a state by a
 more costly path, looks at the front of an empty vector

---
 include/mutable/util/HeuristicSearch.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 81aebd3..f09c808 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -362,9 +362,10 @@ struct StateManager
                     /*----- The state is in the regular queue and needs to be moved to the beam queue. -----*/
                     if constexpr (HasRegularQueue)
                         it->second.queue->erase(it->second.handle); // erase from regular queue
-                    if (state.g() < it->first.g())
+                    if (state.g() < it->first.g()) {
                         inc_cheaper();
                         it->first.decrease_g(state.parent(), state.g()); // update *g* value
+                    }
                     it->second.handle = beam_queue_.push(&*it); // add to beam queue and update handle
                     it->second.queue = &beam_queue_; // update queue
                     inc_decrease_key();
@@ -750,18 +751,21 @@ struct genericAStar
     /* Try to add the successor state `s` to the beam.  If the weight of `s` is already higher than the highest weight
      * in the beam, immediately bypass the beam. */
     void beam(state_type state, double h, Context&... context) {
+        if (candidates.size() < beam_width) {
+            /* There is still space in the candidates, so simply add the state to the heap. */
+            candidates.emplace_back(std::move(state), h);
+            if (candidates.size() == beam_width) // heapify when filled
+                std::make_heap(candidates.begin(), candidates.end());
+            return;
+        }
+
         auto &top = candidates.front();
 #ifndef NDEBUG
         M_insist(std::is_heap(candidates.begin(), candidates.end()), "candidates must always be a max-heap");
         for (auto &elem : candidates)
             M_insist(top >= elem, "the top candidate at the front must be no less than any other candidate");
 #endif
-        if (candidates.size() < beam_width) {
-            /* There is still space in the candidates, so simply add the state to the heap. */
-            candidates.emplace_back(std::move(state), h);
-            if (candidates.size() == beam_width) // heapify when filled
-                std::make_heap(candidates.begin(), candidates.end());
-        } else if (state.g() + h >= top.state.g() + top.h) {
+        if (state.g() + h >= top.state.g() + top.h) {
             /* The state has higher g+h than the top of the candidates heap, so bypass the candidates immediately. */
             state_manager_.push_regular_queue(std::move(state), h, context...);
         } else {
-- 
2.43.0


From d979d69ed6fddfc6a8958c772e6ce98c852b29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 56/82] fix: avg_sel heuristic divides zero by zero if a
 subproblem is empty

---
 include/mutable/IR/HeuristicSearchPlanEnumerator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/IR/HeuristicSearchPlanEnumerator.hpp b/include/mutable/IR/HeuristicSearchPlanEnumerator.hpp
index e90d9fa..846e5f5 100644
--- a/include/mutable/IR/HeuristicSearchPlanEnumerator.hpp
+++ b/include/mutable/IR/HeuristicSearchPlanEnumerator.hpp
@@ -2057,6 +2057,7 @@ struct avg_sel<PlanTable, State, BottomUp>
         }
 
         double Cprod = std::reduce(cardinalities, end, 1., std::multiplies<double>{});
+        if (Cprod == 0) return 0; // an empty subproblem, all remaining joins are empty
         const double sel_remaining = CE.predict_cardinality(*PT[All].model) / Cprod;
         M_insist(sel_remaining <= 1.1);
 
-- 
2.43.0


From d9941c4a8b28e11fb5796a15f8632af22396122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 57/82] fix: connected subgraphs are enumerated before their
 subsets, hence DPccp misses optimal plans of graphs with cycles

---
 include/mutable/util/AdjacencyMatrix.hpp | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/mutable/util/AdjacencyMatrix.hpp b/include/mutable/util/AdjacencyMatrix.hpp
index 60255e0..4ff8f3a 100644
--- a/include/mutable/util/AdjacencyMatrix.hpp
+++ b/include/mutable/util/AdjacencyMatrix.hpp
@@ -159,23 +159,23 @@ exit:
     {
         source = source & super; // restrict sources to vertices in `super`
 
-        std::deque<std::pair<SmallBitset, SmallBitset>> Q;
+        /* Recurse depth-first and in ascending order of the neighbors added, such that every CSG is enumerated *after* all
+         * its subsets that contain the same source.  (With breadth-first search, this is not the case: in a cycle, a
+         * subset can need more steps from the source than its superset.) */
+        auto enumerate = [&](auto &&enumerate, const SmallBitset S, const SmallBitset X_old) -> void {
+            const SmallBitset N = (neighbors(S) & super) - X_old;
+            const SmallBitset X_new = X_old | N;
+            for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
+                callback(S | n);
+            for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N))
+                enumerate(enumerate, S | n, X_new);
+        };
+
         for (auto it = source.begin(); it != source.end(); ++it) {
             const SmallBitset I = it.as_set();
             M_insist(I.is_singleton());
-            Q.emplace_back(I, source & ~I.mask_to_lo()); // exclude larger sources
-
-            while (not Q.empty()) {
-                auto [S, X_old] = Q.front();
-                Q.pop_front();
-
-                callback(S);
-
-                const SmallBitset N = (neighbors(S) & super) - X_old;
-                const SmallBitset X_new = X_old | N;
-                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
-                    Q.emplace_back(S | n, X_new);
-            }
+            callback(I);
+            enumerate(enumerate, I, source & ~I.mask_to_lo()); // exclude larger sources
         }
     }
 
-- 
2.43.0


From 1fe63cbd44713868ab80b5e70d09736e947dddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 58/82] fix: cardinalities of joins wrap around; estimate of
 joining all without injected cardinality counts the first source twice

---
 src/catalog/CardinalityEstimator.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 190b395..bc38ee1 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -113,7 +113,7 @@ CartesianProductEstimator::estimate_join(const QueryGraph&, const DataModel &_le
     auto left = as<const CartesianProductDataModel>(_left);
     auto right = as<const CartesianProductDataModel>(_right);
     auto model = std::make_unique<CartesianProductDataModel>();
-    model->size = left.size * right.size; // this model cannot estimate the effects of a join condition
+    model->size = mul_wo_overflow(left.size, right.size); // this model cannot estimate the effects of a join condition
     return model;
 }
 
@@ -126,7 +126,7 @@ CartesianProductEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, con
     auto model = std::make_unique<CartesianProductDataModel>();
     model->size = 1UL;
     for (auto it = to_join.begin(); it != to_join.end(); ++it)
-        model->size *= as<const CartesianProductDataModel>(*PT[it.as_set()].model).size;
+        model->size = mul_wo_overflow(model->size, as<const CartesianProductDataModel>(*PT[it.as_set()].model).size);
     return model;
 }
 
@@ -326,7 +326,7 @@ InjectionCardinalityEstimator::estimate_join(const QueryGraph &G, const DataMode
     if (auto it = cardinality_table_.find(id); it != cardinality_table_.end()) {
         /* Clamp injected cardinality to at most the cardinality of the cartesian product of the join's children
          * since it cannot produce more tuples than that. */
-        const std::size_t max_cardinality = left.size_ * right.size_;
+        const std::size_t max_cardinality = mul_wo_overflow(left.size_, right.size_);
         return std::make_unique<InjectionCardinalityDataModel>(subproblem, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to CartesianProductEstimator. */
@@ -354,16 +354,17 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
          * since it cannot produce more tuples than that. */
         std::size_t max_cardinality = 1;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            max_cardinality *= as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_;
+            max_cardinality = mul_wo_overflow(
+                max_cardinality, as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_
+            );
         return std::make_unique<InjectionCardinalityDataModel>(to_join, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to cartesian product. */
         if (not Options::Get().quiet)
             std::cerr << "warning: failed to estimate the join of all data sources in " << to_join << '\n';
-        auto ds_it = to_join.begin();
-        std::size_t size = as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
-        for (; ds_it != to_join.end(); ++ds_it)
-            size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
+        std::size_t size = 1;
+        for (auto ds_it = to_join.begin(); ds_it != to_join.end(); ++ds_it)
+            size = mul_wo_overflow(size, as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_);
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
 }
-- 
2.43.0


From 6f8185ea964aa5b1d6ba4bad7c9212965a7c22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 59/82] fix: LIKE with constant patterns overflows the stack or
 never ends on long texts; hexadecimal floats cannot be evaluated

---
 src/backend/Interpreter.hpp  |  4 +---
 src/backend/StackMachine.cpp | 17 ++++++++---------
 src/util/fn.cpp              |  5 ++++-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index 459cd28..f363478 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -250,10 +250,8 @@ struct Interpreter : Backend, ConstOperatorVisitor
 
             /* Float */
             case TK_DEC_FLOAT:
-                return strtod(*c.tok.text, nullptr);
-
             case TK_HEX_FLOAT:
-                M_unreachable("not implemented");
+                return strtod(*c.tok.text, nullptr);
 
             /* String */
             case TK_STRING_LITERAL: {
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index e2453ed..e1e3481 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -5,7 +5,7 @@
 #include <ctime>
 #include <functional>
 #include <mutable/util/fn.hpp>
-#include <regex>
+#include <unordered_set>
 
 
 using namespace m;
@@ -59,7 +59,7 @@ struct m::StackMachineBuilder : ast::ConstASTExprVisitor
     }
 
     private:
-    static std::unordered_map<std::string, std::regex> regexes_; ///< regexes built from patterns in LIKE expressions
+    static std::unordered_set<std::string> patterns_; ///< constant patterns of LIKE expressions
 
     /** Returns a pair of (tuple_id, attr_id). */
     std::pair<std::size_t, std::size_t>
@@ -83,7 +83,7 @@ struct m::StackMachineBuilder : ast::ConstASTExprVisitor
     void operator()(Const<ast::QueryExpr> &e) override;
 };
 
-std::unordered_map<std::string, std::regex> StackMachineBuilder::regexes_;
+std::unordered_set<std::string> StackMachineBuilder::patterns_;
 
 void StackMachineBuilder::operator()(Const<ast::Designator> &e)
 {
@@ -485,10 +485,9 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
             if (auto rhs = cast<const ast::Constant>(e.rhs.get())) {
                 (*this)(*e.lhs);
                 auto pattern = interpret(*rhs->tok.text);
-                auto it = regexes_.find(pattern);
-                if (it == regexes_.end())
-                    it = StackMachineBuilder::regexes_.insert({pattern, pattern_to_regex(pattern.c_str(), true)}).first;
-                stack_machine_.add_and_emit_load(&(it->second));
+                like("", pattern); // throws if the pattern is invalid
+                auto it = patterns_.insert(std::move(pattern)).first;
+                stack_machine_.add_and_emit_load(const_cast<std::string*>(&*it));
                 stack_machine_.emit_Like_const();
             } else {
                 (*this)(*e.lhs);
@@ -1471,11 +1470,11 @@ Cmp_s: BINARY(strcmp, char*);
 
 Like_const: {
     M_insist(top_ >= 2);
-    std::regex *re = TOP.as<std::regex*>();
+    const std::string *pattern = TOP.as<std::string*>();
     POP();
     if (not TOP_IS_NULL) {
         char *str = TOP.as<char*>();
-        TOP = std::regex_match(str, *re);
+        TOP = like(str, *pattern);
     }
 }
 NEXT;
diff --git a/src/util/fn.cpp b/src/util/fn.cpp
index c4b0620..8e6b675 100644
--- a/src/util/fn.cpp
+++ b/src/util/fn.cpp
@@ -1,5 +1,7 @@
 #include <mutable/util/fn.hpp>
 
+#include <vector>
+
 #if __linux
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -71,7 +73,8 @@ bool m::like(const std::string &str, const std::string &pattern, const char esca
 {
     M_insist('_' != escape_char and '%' != escape_char, "illegal escape character");
 
-    bool dp[pattern.length() + 1][str.length() + 1]; // dp[i][j] == true iff pattern[:i] contains str[:j]
+    /* dp[i][j] == true iff pattern[:i] contains str[:j] */
+    std::vector<std::vector<bool>> dp(pattern.length() + 1, std::vector<bool>(str.length() + 1));
 
     dp[0][0] = true; // empty pattern contains empty string
     for (std::size_t j = 1; j <= str.length(); ++j)
-- 
2.43.0


From 4ad6a516a99cfd0527a6d274763df77950e6c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 60/82] fix: queries without FROM ignore WHERE and LIMIT, and
 fail with aggregates or as nested query

---
 src/IR/Operator.cpp   |  3 +--
 src/IR/Optimizer.cpp  | 10 +++++++++-
 src/IR/QueryGraph.cpp |  4 ++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3026f4e..e3cab79 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -445,8 +445,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         }
     }
     M_insist(pos_out <= op.projections().size());
-    const auto &dummy = op.projections()[0];
-    op.projections().resize(pos_out, dummy);
+    op.projections().erase(op.projections().begin() + pos_out, op.projections().end());
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 2cd3ff6..e646066 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -206,7 +206,15 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     if (num_sources == 0) {
         PT.get_final().cost = 0; // no sources → no cost
         PT.get_final().model = CE.empty_model(); // XXX: should rather be 1 (single tuple) than empty
-        return { std::make_unique<ProjectionOperator>(G.projections()), std::move(PT) };
+        auto projection = std::make_unique<ProjectionOperator>(G.projections());
+
+        /* Set operator information. */
+        auto info = std::make_unique<OperatorInformation>();
+        info->subproblem = Subproblem();
+        info->estimated_cardinality = 1; // single tuple
+        projection->info(std::move(info));
+
+        return { std::move(projection), std::move(PT) };
     }
 
     /*----- Initialize plan table and compute plans for data sources. -----*/
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 8542989..98b9eea 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1624,6 +1624,10 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
                 M_unreachable("invalid variant");
             }
         }
+    } else if (stmt.where or stmt.having or stmt.limit or not graph_->aggregates_.empty()) {
+        /* Without FROM, there is a single row without any attributes to filter, aggregate, or limit. */
+        auto &row = graph_->add_source(ThreadSafePooledOptionalString{}, std::make_unique<QueryGraph>());
+        named_sources_.emplace(C.pool("$row"), row);
     }
 
     /* Do some computation before first nested query is decorrelated to ensure that `get_needed_attrs()` works as
-- 
2.43.0


From 7b512b2ad2f7761e8c1c1d4068d460ba59bef764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 61/82] fix: injected cardinalities fail for sources without a
 name

---
 src/catalog/CardinalityEstimator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index bc38ee1..2228119 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -410,8 +410,10 @@ ThreadSafePooledString InjectionCardinalityEstimator::make_identifier(const Quer
     auto &C = Catalog::Get();
     static thread_local std::vector<ThreadSafePooledString> names;
     names.clear();
-    for (auto id : S)
-        names.emplace_back(G.sources()[id]->name());
+    for (auto id : S) {
+        auto name = G.sources()[id]->name();
+        names.emplace_back(name.has_value() ? name.assert_not_none() : C.pool("")); // a source may be anonymous
+    }
     std::sort(names.begin(), names.end(), [](auto lhs, auto rhs){ return strcmp(*lhs, *rhs) < 0; });
 
     buf_.clear();
-- 
2.43.0


From 596949af24735e25ca02652ba89b3485564dfb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 62/82] fix: nested queries in SELECT, WHERE and HAVING abort
 or are evaluated wrongly

---
 src/IR/QueryGraph.cpp | 62 +++++++++++++++++++++++++++----------------
 src/parse/AST.cpp     |  7 ++++-
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 98b9eea..719e1ea 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -427,6 +427,11 @@ ClauseInfo::ClauseInfo(const cnf::Clause &clause)
                 data_sources.emplace(D.get_table_name());
         },
         [this](const ast::QueryExpr &Q) {
+            /* Name the single result of the nested query `$res`. */
+            auto &select_clause = as<ast::SelectClause>(*as<ast::SelectStmt>(*Q.query).select);
+            M_insist(not select_clause.select_all, "* can not yet be used in nested queries.");
+            M_insist(select_clause.select.size() == 1);
+            select_clause.select.front().second.text = Catalog::Get().pool("$res");
             auto B = std::make_unique<GraphBuilder>();
             (*B)(*Q.query);
             nested_queries.emplace_back(Q, std::move(B), Q.alias());
@@ -443,6 +448,8 @@ void GraphBuilder::process_selection(cnf::Clause &clause)
 
     /*----- Introduce subqueries as sources. -----*/
     for (auto &subquery : CI.nested_queries) {
+        if (named_sources_.contains(subquery.alias))
+            continue; // the nested query occurs in several clauses and was already introduced
         auto &ref = graph_->add_source(subquery.alias, subquery.builder->get());
         named_sources_.emplace(subquery.alias, ref);
         for (auto &[deferred_clause, deferred_CI] : subquery.builder->deferred_clauses_) {
@@ -1600,8 +1607,10 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
             existing_grouping_keys_.emplace_back(*grp); // TODO correct?
     }
 
-    ///> holds all nested queries occurring in the `SelectClause` of `stmt`
-    std::vector<std::pair<std::reference_wrapper<const ast::QueryExpr>, ThreadSafePooledOptionalString>> nested_queries_in_select;
+    ///> holds all nested queries occurring in the `SelectClause` of `stmt`, together with their alias and their position
+    ///> among all projections
+    std::vector<std::tuple<std::reference_wrapper<const ast::QueryExpr>, ThreadSafePooledOptionalString, std::size_t>>
+        nested_queries_in_select;
 
     /*----- Process FROM and create data sources. -----*/
     if (stmt.from) {
@@ -1647,8 +1656,9 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
                                                                                  // directly add to projections
     /* Collect nested queries in SELECT clause. */
     for (auto &s : SELECT->select) {
-        if (auto query = cast<const ast::QueryExpr>(s.first)) // found nested query
-            nested_queries_in_select.emplace_back(*query, s.second.text);
+        if (auto query = cast<const ast::QueryExpr>(s.first.get())) // found nested query
+            nested_queries_in_select.emplace_back(*query, s.second.text,
+                                                  graph_->projections_.size() + nested_queries_in_select.size());
         else
             graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections
     }
@@ -1781,7 +1791,13 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
         cnf_having = cnf::to_CNF(*having_clause->having);
         auto sub_graph = std::exchange(graph_, std::make_unique<QueryGraph>());
         auto &sub = graph_->add_source(ThreadSafePooledOptionalString{}, std::move(sub_graph));
-        sub.update_filter(cnf_having);
+        /* Clauses with nested queries are evaluated by a join with the nested query, see below. */
+        cnf::CNF filter;
+        for (auto &clause : cnf_having) {
+            if (ClauseInfo(clause).nested_queries.empty())
+                filter.emplace_back(clause);
+        }
+        sub.update_filter(std::move(filter));
         named_sources_.emplace(C.pool("HAVING"), sub);
         /* Reset former computation of projection and move it after the HAVING. */
         std::swap(graph_->projections_, sub.query_graph().projections_);
@@ -1799,23 +1815,23 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
             // XXX
             // named_sources_.at("HAVING")->update_filter(graph_->correlation_info_->compute(cnf::CNF({clause})));
         } else {
-            M_insist(nested_queries.size() == 1, "Multiple nested queries in one clause are not yet supported.");
-            auto &nested_query = nested_queries.front().expr;
-            auto &nested_stmt = as<const ast::SelectStmt>(*nested_query.query);
-            auto &nested_select_clause = as<ast::SelectClause>(*nested_stmt.select);
-            M_insist(not nested_select_clause.select_all, "* can not yet be used in nested queries.");
-            M_insist(nested_select_clause.select.size() == 1);
-
-            /* Replace the alias of the expression by `$res`. */
-            nested_select_clause.select.front().second.text = C.pool("$res");
-
-            /* Create a graph for the nested query.  Unnest the query by adding it as a source to the outer graph */
-            auto &q_name = nested_query.alias();
-            auto &Q = graph_->add_source(q_name, QueryGraph::Build(nested_stmt));
-            named_sources_.emplace(q_name, Q);
+            Join::sources_t sources;
+            for (auto &[nested_query, _1, q_name] : nested_queries) {
+                auto it = named_sources_.find(q_name);
+                if (it == named_sources_.end()) { // the nested query may occur in several clauses
+                    /* Create a graph for the nested query.  Unnest the query by adding it as a source to the outer
+                     * graph. */
+                    auto &Q = graph_->add_source(q_name, QueryGraph::Build(*nested_query.query));
+                    it = named_sources_.emplace(q_name, Q).first;
+                }
+                if (std::find_if(sources.begin(), sources.end(),
+                                 [&](DataSource &ds) { return &ds == &it->second.get(); }) == sources.end())
+                    sources.emplace_back(it->second);
+            }
 
-            /* Create a join between the nested query and the HAVING. */
-            auto &J = graph_->joins_.emplace_back(new Join(cnf::CNF({clause}), {Q, named_sources_.at(C.pool("HAVING"))}));
+            /* Create a join between the nested queries and the HAVING. */
+            sources.emplace_back(named_sources_.at(C.pool("HAVING")));
+            auto &J = graph_->joins_.emplace_back(new Join(cnf::CNF({clause}), std::move(sources)));
             for (auto ds : J->sources())
                 ds.get().add_join(*J);
         }
@@ -1838,7 +1854,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
 
     /* Add nested queries in SELECT. */
     /* TODO iterate over expressions in the order nested queries (equi) < nested queries (non-equi) */
-    for (auto [_query, name] : nested_queries_in_select) {
+    for (auto [_query, name, position] : nested_queries_in_select) {
         auto &query = _query.get();
 
         auto &select = as<ast::SelectStmt>(*query.query);
@@ -1867,7 +1883,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
             source->add_join(*J);
         }
         named_sources_.emplace(q_name, Q);
-        graph_->projections_.emplace_back(query, name);
+        graph_->projections_.emplace(graph_->projections_.begin() + position, query, name);
     }
 
     /* Add order by. */
diff --git a/src/parse/AST.cpp b/src/parse/AST.cpp
index ce8ad3f..159ffd4 100644
--- a/src/parse/AST.cpp
+++ b/src/parse/AST.cpp
@@ -165,7 +165,12 @@ Schema Expr::get_required() const
                     schema.add(std::move(id), fn.type());
                 throw visit_skip_subtree{};
             }
-        }
+        },
+        [&schema](const QueryExpr &q) { // the result of the nested query, which is a source of its own
+            Schema::Identifier id(q.alias(), Catalog::Get().pool("$res"));
+            if (not schema.has(id)) // avoid duplicates
+                schema.add(std::move(id), q.type());
+        },
     };
     visit(visitor, *this, m::tag<ConstPreOrderExprVisitor>());
     return schema;
-- 
2.43.0


From 139b08e8aafc9ba9b3b8d1785a63340a78f4b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 63/82] fix: query graphs with unnamed sources cannot be
 printed

---
 src/IR/QueryGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 719e1ea..0308627 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1977,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
 
     for (auto &ds : sources()) {
         out << "    " << id(*ds) << " [label=<";
-        out << "<B>" << ds->name() << "</B>";
+        out << "<B>" << (ds->name().has_value() ? *ds->name() : "()") << "</B>";
         if (ds->filter().size())
             out << "<BR/><FONT COLOR=\"0.0 0.0 0.25\" POINT-SIZE=\"10\">"
                 << html_escape(to_string(ds->filter()))
-- 
2.43.0


From 20e0d9005803ebbc83258886b1a78f833e310d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 64/82] fix: schemas of nested queries with grouping and HAVING
 cannot be minimized

---
 include/mutable/catalog/Schema.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 654b616..4d461e3 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -254,14 +254,20 @@ inline Schema operator+(const Schema &left, const Schema &right)
     return S;
 }
 
-/** Computes the *set intersection* of two `Schema`s.  Merges the constraints of \p left and \p right. */
+/** Computes the *set intersection* of two `Schema`s.  Merges the constraints of \p left and \p right.  Types may differ
+ * in their category, i.e. scalar or vectorial, since a scalar result of a nested query is a vectorial to the outer query. */
 inline Schema operator&(const Schema &left, const Schema &right)
 {
+    auto same_type = [](const Type *first, const Type *second) {
+        if (first == second) return true;
+        auto p = cast<const PrimitiveType>(first), q = cast<const PrimitiveType>(second);
+        return p and q and p->as_vectorial() == q->as_vectorial();
+    };
     Schema res;
     for (auto &e : left) {
         auto it = right.find(e.id);
         if (it != right.end()) {
-            if (e.type != it->type)
+            if (not same_type(e.type, it->type))
                 throw invalid_argument("type mismatch");
             res.add(e.id, e.type, e.constraints | it->constraints); // merge constraints from both
         }
-- 
2.43.0


From eca0b156bfc09a0ddb0978a5af79591711d24c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 65/82] fix: interpreter confuses columns of plans with
 minimized schemas

---
 src/backend/Interpreter.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 18e42f2..c6b377a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -809,22 +809,21 @@ struct LimitData : OperatorData
 struct GroupingData : OperatorData
 {
     Pipeline pipeline;
-    StackMachine compute_key; ///< computes the key for a tuple
+    std::optional<StackMachine> compute_key; ///< computes the key for a tuple
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
-    GroupingData(const GroupingOperator &op)
-        : pipeline(op.schema())
-        , compute_key(op.child(0)->schema())
-    {
-        std::ostringstream oss;
+    GroupingData(const GroupingOperator &op) : pipeline(op.schema()) { }
 
+    /** Compiles the computation of the key and of the arguments of the aggregates for tuples of `pipeline_schema`. */
+    void compile(const Schema &pipeline_schema, const GroupingOperator &op) {
         /* Compile the stack machine to compute the key and compute the key schema. */
         {
+            compute_key.emplace(pipeline_schema);
             std::size_t key_idx = 0;
             for (auto [grp, alias] : op.group_by()) {
-                compute_key.emit(grp.get(), 1);
-                compute_key.emit_St_Tup(0, key_idx++, grp.get().type());
+                compute_key->emit(grp.get(), 1);
+                compute_key->emit_St_Tup(0, key_idx++, grp.get().type());
             }
         }
 
@@ -833,7 +832,7 @@ struct GroupingData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(pipeline_schema);
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -868,11 +867,14 @@ struct AggregationData : OperatorData
         for (auto &e : op.schema())
             types.push_back(e.type);
         aggregates = Tuple(std::move(types));
+    }
 
+    /** Compiles the computation of the arguments of the aggregates for tuples of `pipeline_schema`. */
+    void compile(const Schema &pipeline_schema, const AggregationOperator &op) {
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(pipeline_schema);
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -1099,12 +1101,11 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->load_build_key(this->schema());
                 data->emit_load_attrs(this->schema());
             }
-            const auto &tuple_schema = op.child(0)->schema();
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
                 if (data->is_key_null()) continue;
-                data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
+                data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(this->schema()));
             }
         }
     } else {
@@ -1192,14 +1193,13 @@ void Pipeline::operator()(const JoinOperator &op)
             }
         } else {
             /* This is not the right-most child.  Collect its produced tuples in a buffer. */
-            const auto &tuple_schema = op.child(data->active_child)->schema();
             if (data->buffer_schemas.size() <= data->active_child) {
                 data->buffer_schemas.emplace_back(this->schema()); // save the schema of the current pipeline
                 data->emit_load_attrs(this->schema());
                 M_insist(data->buffer_schemas.size() == data->load_attrs.size());
             }
             for (auto &t : block_)
-                data->buffers[data->active_child].emplace_back(t.clone(tuple_schema));
+                data->buffers[data->active_child].emplace_back(t.clone(this->schema()));
         }
     }
 }
@@ -1350,11 +1350,13 @@ void Pipeline::operator()(const GroupingOperator &op)
     /* Find the group. */
     auto data = as<HashBasedGroupingData>(op.data());
     auto &groups = data->groups;
+    if (not data->compute_key)
+        data->compile(this->schema(), op);
 
     Tuple key(op.schema());
     for (auto &tuple : block_) {
         Tuple *args[] = { &key, &tuple };
-        data->compute_key(args);
+        (*data->compute_key)(args);
         auto it = groups.find(key);
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
@@ -1369,6 +1371,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
+    if (data->compute_aggregate_arguments.empty())
+        data->compile(this->schema(), op);
 
     for (auto &tuple : block_) {
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
-- 
2.43.0


From f64d333ed79eea735dc204da14ffd24a695a928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 66/82] fix: ORDER BY aborts for repeated expressions, and for
 computed expressions in minimized plans

---
 src/IR/Optimizer.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index e646066..60506d0 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -441,12 +441,28 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     auto additional_projections = Optimizer::compute_projections_required_for_order_by(G.projections(), G.order_by());
-    const bool requires_post_projection = not additional_projections.empty();
+    bool requires_post_projection = not additional_projections.empty();
 
     /* Perform projection. */
     if (not additional_projections.empty() or not G.projections().empty()) {
         /* Merge original projections with additional projections. */
-        additional_projections.insert(additional_projections.end(), G.projections().begin(), G.projections().end());
+        const auto num_additional_projections = additional_projections.size();
+        for (auto &proj : G.projections()) {
+            /* If ordered, compute repeated expressions only once such that they are unambiguous to the ordering. */
+            if (not G.order_by().empty() and not proj.second.has_value() and not is<const Constant>(proj.first.get())) {
+                auto is_same = [&proj](const projection_type &other) {
+                    return not other.second.has_value()
+                        and Schema::Identifier(other.first.get()) == Schema::Identifier(proj.first.get());
+                };
+                if (std::any_of(additional_projections.begin() + num_additional_projections,
+                                additional_projections.end(), is_same))
+                {
+                    requires_post_projection = true;
+                    continue;
+                }
+            }
+            additional_projections.emplace_back(proj);
+        }
         auto projection = std::make_unique<ProjectionOperator>(std::move(additional_projections));
         projection->add_child(plan.release());
 
@@ -496,9 +512,11 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     if (requires_post_projection or (not is<ProjectionOperator>(plan) and needs_projection_)) {
         // TODO estimate data model
         /* Change aliased projections in designators with the alias as name since original projection is
-         * performed beforehand. */
+         * performed beforehand.  The same applies to computed expressions, which are named by their text. */
         std::vector<projection_type> adapted_projections;
         for (auto [expr, alias] : G.projections()) {
+            if (not alias.has_value() and not is<const Designator>(expr.get()) and not is<const Constant>(expr.get()))
+                alias = Catalog::Get().pool(to_string(expr.get()).c_str());
             if (alias.has_value()) {
                 Token name(expr.get().tok.pos, alias.assert_not_none(), TK_IDENTIFIER);
                 auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
-- 
2.43.0


From b7f19f7335d4e6e430ccbd36332dc50b54785059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 67/82] fix: plans promise non-NULL or unique columns wrongly,
 minimizing plans twice aborts

---
 include/mutable/IR/Operator.hpp | 42 +++++--------------
 src/IR/Operator.cpp             | 74 ++++++++++++++++++++++++++++++---
 2 files changed, 78 insertions(+), 38 deletions(-)

diff --git a/include/mutable/IR/Operator.hpp b/include/mutable/IR/Operator.hpp
index bd05723..4591a1f 100644
--- a/include/mutable/IR/Operator.hpp
+++ b/include/mutable/IR/Operator.hpp
@@ -376,14 +376,7 @@ struct M_EXPORT ProjectionOperator : Producer, Consumer
         children().push_back(child);
         child->parent(this);
 
-        /* Add constraints from child to computed schema. */
-        auto &S = schema();
-        for (std::size_t i = 0; i < projections_.size(); ++i) {
-            if (auto D = cast<const ast::Designator>(projections_[i].first)) {
-                Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
-                S[i].constraints |= child->schema()[id].second.constraints;
-            }
-        }
+        add_constraints(child->schema()); // add constraints from child to computed schema
     }
     virtual Producer * set_child(Producer *child, std::size_t i) override {
         if (not child)
@@ -394,14 +387,7 @@ struct M_EXPORT ProjectionOperator : Producer, Consumer
         children()[i] = child;
         child->parent(this);
 
-        /* Add constraints from child to computed schema. */
-        auto &S = schema();
-        for (std::size_t i = 0; i < projections_.size(); ++i) {
-            if (auto D = cast<const ast::Designator>(projections_[i].first)) {
-                Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
-                S[i].constraints |= child->schema()[id].second.constraints;
-            }
-        }
+        add_constraints(child->schema()); // add constraints from child to computed schema
 
         return old;
     }
@@ -411,6 +397,9 @@ struct M_EXPORT ProjectionOperator : Producer, Consumer
 
     void accept(OperatorVisitor &v) override;
     void accept(ConstOperatorVisitor &v) const override;
+
+    /** Adapts the constraints of the computed schema to the constraints of the schema of the `child`. */
+    void add_constraints(const Schema &child);
 };
 
 struct M_EXPORT LimitOperator : Producer, Consumer
@@ -462,14 +451,7 @@ struct M_EXPORT GroupingOperator : Producer, Consumer
         children().push_back(child);
         child->parent(this);
 
-        /* Add constraints from child to computed schema. */
-        auto &S = schema();
-        for (std::size_t i = 0; i < group_by_.size(); ++i) {
-            if (auto D = cast<const ast::Designator>(group_by_[i].first)) {
-                Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
-                S[i].constraints |= child->schema()[id].second.constraints;
-            }
-        }
+        add_constraints(child->schema()); // add constraints from child to computed schema
     }
     virtual Producer * set_child(Producer *child, std::size_t i) override {
         if (not child)
@@ -480,14 +462,7 @@ struct M_EXPORT GroupingOperator : Producer, Consumer
         children()[i] = child;
         child->parent(this);
 
-        /* Add constraints from child to computed schema. */
-        auto &S = schema();
-        for (std::size_t i = 0; i < group_by_.size(); ++i) {
-            if (auto D = cast<const ast::Designator>(group_by_[i].first)) {
-                Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
-                S[i].constraints |= child->schema()[id].second.constraints;
-            }
-        }
+        add_constraints(child->schema()); // add constraints from child to computed schema
 
         return old;
     }
@@ -498,6 +473,9 @@ struct M_EXPORT GroupingOperator : Producer, Consumer
 
     void accept(OperatorVisitor &v) override;
     void accept(ConstOperatorVisitor &v) const override;
+
+    /** Adapts the constraints of the computed schema to the constraints of the schema of the `child`. */
+    void add_constraints(const Schema &child);
 };
 
 struct M_EXPORT AggregationOperator : Producer, Consumer
diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index e3cab79..c18adf7 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -251,6 +251,49 @@ ProjectionOperator::ProjectionOperator(std::vector<projection_type> projections)
     }
 }
 
+/** Returns `true` iff evaluating `e` depends on an entry of `schema` which may be `NULL` although it is not considered
+ * nullable by `e`, e.g. because it is an aggregate computed over an empty input. */
+static bool depends_on_nullable(const ast::Expr &e, const Schema &schema)
+{
+    bool res = false;
+    auto check = [&](const ast::Expr &x) {
+        if (auto it = schema.find(Schema::Identifier(x)); it != schema.end() and it->nullable() and not x.can_be_null())
+            res = true;
+    };
+    visit(overloaded {
+        [](auto&) { /* nothing to be done */ },
+        [&](const ast::Designator &d) { check(d); },
+        [&](const ast::FnApplicationExpr &fn) {
+            if (fn.get_function().is_aggregate()) {
+                check(fn);
+                throw visit_skip_subtree();
+            } else if (fn.get_function().fnid == Function::FN_ISNULL) {
+                throw visit_skip_subtree(); // never NULL
+            }
+        },
+        [&](const ast::QueryExpr &q) {
+            Schema::Identifier id(q.alias(), Catalog::Get().pool("$res"));
+            if (auto it = schema.find(id); it != schema.end() and it->nullable())
+                res = true;
+        },
+    }, e, m::tag<ast::ConstPreOrderExprVisitor>());
+    return res;
+}
+
+void ProjectionOperator::add_constraints(const Schema &child)
+{
+    auto &S = schema();
+    for (std::size_t i = 0; i < projections_.size(); ++i) {
+        auto &proj = projections_[i].first.get();
+        if (depends_on_nullable(proj, child))
+            S[i].constraints &= ~Schema::entry_type::NOT_NULLABLE;
+        if (auto D = cast<const ast::Designator>(&proj)) {
+            Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
+            S[i].constraints |= child[id].second.constraints;
+        }
+    }
+}
+
 GroupingOperator::GroupingOperator(std::vector<group_type> group_by,
                                    std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates)
     : group_by_(std::move(group_by))
@@ -294,6 +337,26 @@ GroupingOperator::GroupingOperator(std::vector<group_type> group_by,
     }
 }
 
+void GroupingOperator::add_constraints(const Schema &child)
+{
+    auto &S = schema();
+    for (std::size_t i = 0; i < group_by_.size(); ++i) {
+        auto &grp = group_by_[i].first.get();
+        if (depends_on_nullable(grp, child))
+            S[i].constraints &= ~Schema::entry_type::NOT_NULLABLE;
+        if (auto D = cast<const ast::Designator>(&grp)) {
+            Schema::Identifier id(D->table_name.text, D->attr_name.text.assert_not_none());
+            S[i].constraints |= child[id].second.constraints;
+        }
+    }
+    for (std::size_t i = 0; i < aggregates_.size(); ++i) {
+        for (auto &arg : aggregates_[i].get().args) {
+            if (aggregates_[i].get().get_function().fnid != Function::FN_COUNT and depends_on_nullable(*arg, child))
+                S[group_by_.size() + i].constraints &= ~Schema::entry_type::NOT_NULLABLE;
+        }
+    }
+}
+
 AggregationOperator::AggregationOperator(std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates)
     : aggregates_(std::move(aggregates))
 {
@@ -452,7 +515,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
     is_top_of_plan_ = false;
     if (not const_cast<const ProjectionOperator&>(op).children().empty()) {
         (*this)(*op.child(0));
-        add_constraints(op.schema(), op.child(0)->schema()); // add constraints from child
+        op.add_constraints(op.child(0)->schema()); // add constraints from child
     }
 }
 
@@ -507,7 +570,6 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
 void SchemaMinimizer::operator()(AggregationOperator &op)
 {
-    M_insist(not op.aggregates().empty());
     Catalog &C = Catalog::Get();
     std::ostringstream oss;
 
@@ -531,8 +593,7 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
         }
     }
     M_insist(pos_out <= op.aggregates().size());
-    const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-    op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+    op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
@@ -544,8 +605,9 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
 void SchemaMinimizer::operator()(SortingOperator &op)
 {
     if (is_top_of_plan_) {
-        required = op.schema(); // require everything
-        is_top_of_plan_ = false;
+        (*this)(*op.child(0)); // require everything
+        op.schema() = op.child(0)->schema();
+        return;
     } else {
         Schema required_by_op;
         for (auto &ord : op.order_by())
-- 
2.43.0


From 34c41eaf6892b31dd4204077f8d4ec05da6c7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 68/82] fix: adding an attribute of a non-vectorial type to a
 table leaves its name behind

---
 include/mutable/catalog/Schema.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 4d461e3..8d07710 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -732,10 +732,10 @@ struct M_EXPORT ConcreteTable : Table
     /** Adds a new attribute with the given `name` and `type` to the table.  Throws `std::invalid_argument` if the
      * `name` is already in use. */
     void push_back(ThreadSafePooledString name, const PrimitiveType *type) override {
-        auto res = name_to_attr_.emplace(name, attrs_.size());
-        if (not res.second)
+        if (name_to_attr_.contains(name))
             throw std::invalid_argument("attribute name already in use");
-        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, std::move(name)));
+        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, name)); // throws if the type is not vectorial
+        name_to_attr_.emplace(std::move(name), attrs_.size() - 1);
     }
 
     /** Returns a `Schema` for this `Table` given the alias `alias`. */
-- 
2.43.0


From 2bcd94f081a93a92249a9591b8ace48c037cfbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 69/82] fix: scheduler searches its queue out of bounds, starts
 several workers, cannot commit transactions without commands

---
 src/catalog/SerialScheduler.cpp | 18 +++++++++---------
 src/catalog/SerialScheduler.hpp |  3 ++-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..7447867 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
-    if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
+    if (it != command_list_.rend())
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise)); // right after the last one
+    else if (running_transaction_ and *running_transaction_ == t)
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
-        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
@@ -82,7 +82,8 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
+    if (&t != running_transaction_)
+        return; // no command of this transaction was executed
     running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
@@ -105,9 +106,8 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
-    if (not schedule_thread_.joinable()) [[unlikely]]
-        // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
-        schedule_thread_ = std::thread(schedule_thread);
+    // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
+    std::call_once(schedule_thread_created_, [this]{ schedule_thread_ = std::thread(schedule_thread); });
     return execution_completed_future;
 }
 
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..d4a7c55 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -20,7 +20,7 @@ struct SerialScheduler : Scheduler
     {
         private:
         std::list<queued_command> command_list_;
-        Transaction *running_transaction_; ///< the currently running transaction. Only commands by this transaction are returned.
+        Transaction *running_transaction_ = nullptr; ///< the currently running transaction. Only commands by this transaction are returned.
         std::mutex mutex_;
         std::condition_variable has_element_;
         bool closed_ = false;
@@ -41,6 +41,7 @@ struct SerialScheduler : Scheduler
     };
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
+    std::once_flag schedule_thread_created_; ///< to create the worker thread only once
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
-- 
2.43.0


From 1d7f2be3aa5bab23be5c7b9dd569987bfa933564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 70/82] fix: failing commands terminate the process or are
 reported as successful

---
 src/catalog/SerialScheduler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 7447867..90e97a4 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -155,8 +155,13 @@ void SerialScheduler::schedule_thread()
         M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
-            cmd->execute(diag);
-            promise.set_value(true);
+            try {
+                cmd->execute(diag);
+            } catch (const std::exception &e) {
+                diag.err() << e.what() << std::endl; // must not terminate the worker thread
+            }
+            cmd.reset();
+            promise.set_value(diag.num_errors() == 0);
             continue;
         }
         promise.set_value(false);
-- 
2.43.0


From adca4ca49c49f46d4b3fe41a747a0cceacee09a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 71/82] fix: decimals are printed without decimal point; sign
 of small negative decimals lost

---
 src/IR/Tuple.cpp             | 12 ++++++++----
 src/backend/StackMachine.cpp | 17 +++++++++++++++++
 src/tables/Opcodes.tbl       |  1 +
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 34d6653..48363f3 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -46,10 +46,14 @@ void Value::print(std::ostream &out, const Type &ty) const
                     const int64_t div = powi(10L, n.scale);
                     const int64_t pre = as_i() / div;
                     const int64_t post = as_i() % div;
-                    out << pre << '.';
-                    auto old_fill = out.fill('0');
-                    out << std::setw(n.scale) << post;
-                    out.fill(old_fill);
+                    if (as_i() < 0 and pre == 0)
+                        out << '-'; // the sign is not printed by the digits left of the decimal point
+                    out << pre;
+                    if (n.scale) {
+                        auto old_fill = out.fill('0');
+                        out << '.' << std::setw(n.scale) << std::abs(post);
+                        out.fill(old_fill);
+                    }
                     break;
                 }
 
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index e1e3481..c0774b0 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -721,6 +721,10 @@ void StackMachine::emit_Print(std::size_t ostream_index, const Type *ty)
     } else if (ty->is_date_time()) {
         emit(StackMachine::STR_TO_OPCODE.at("Print_datetime"));
         emit(static_cast<Opcode>(ostream_index));
+    } else if (ty->is_decimal()) {
+        emit(StackMachine::STR_TO_OPCODE.at("Print_decimal"));
+        emit(static_cast<Opcode>(ostream_index));
+        emit(static_cast<Opcode>(as<const Numeric>(ty)->scale));
     } else {
         std::ostringstream oss;
         oss << "Print" << tystr(as<const PrimitiveType>(ty));
@@ -1123,6 +1127,18 @@ Print_datetime: {
 }
 NEXT;
 
+Print_decimal: {
+    M_insist(top_ >= 1);
+    std::size_t index = std::size_t(*op_++);
+    std::size_t scale = std::size_t(*op_++);
+    std::ostream &out = *reinterpret_cast<std::ostream*>(context_[index].as_p());
+    if (TOP_IS_NULL)
+        out << "NULL";
+    else
+        TOP.print(out, *Type::Get_Decimal(Type::TY_Vector, Numeric::MAX_DECIMAL_PRECISION, scale));
+}
+NEXT;
+
 
 /*======================================================================================================================
  * Storage Access Operations
@@ -1599,6 +1615,7 @@ void StackMachine::dump(std::ostream &out) const
             case Opcode::St_Tup_d:
             case Opcode::St_Tup_b:
             case Opcode::Putc:
+            case Opcode::Print_decimal:
                 ++i;
                 out << ' ' << static_cast<int64_t>(ops[i]);
                 /* fall through */
diff --git a/src/tables/Opcodes.tbl b/src/tables/Opcodes.tbl
index 27db9a9..50055fc 100644
--- a/src/tables/Opcodes.tbl
+++ b/src/tables/Opcodes.tbl
@@ -80,6 +80,7 @@ M_OPCODE(Print_s, 0, index)
 M_OPCODE(Print_b, 0, index)
 M_OPCODE(Print_date, 0, index)
 M_OPCODE(Print_datetime, 0, index)
+M_OPCODE(Print_decimal, 0, index, scale)
 
 
 /*======================================================================================================================
-- 
2.43.0


From f3d9dcd48e3fdf6c89279cc07b822c9bd57e5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 72/82] fix: versions of aliased tables and of tables in nested
 queries are not filtered

---
 src/catalog/Schema.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..aa35be5 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -169,7 +169,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, bt->name().assert_not_none(), TK_EOF); // the alias, if there is one
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
@@ -264,6 +264,9 @@ void apply_timestamp_filter(QueryGraph &G)
 
                 G.add_custom_filter(std::move(filter_expr), *ds);
             }
+        } else {
+            /* The tables of nested queries have versions, too. */
+            apply_timestamp_filter(as<Query>(*ds).query_graph());
         }
     }
 }
-- 
2.43.0


From 3094d06d4709068fd4adb92e2c4c43281dbff5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 73/82] fix: dropping a table leaves references to its
 attributes dangling

---
 include/mutable/catalog/Schema.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 8d07710..9e00cfd 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -940,6 +940,14 @@ struct M_EXPORT Database
         if (it == tables_.end())
             throw std::invalid_argument("Table of that name does not exist.");
         drop_indexes(name);
+        /* Remove the references to attributes of this table. */
+        for (auto &[_, table] : tables_) {
+            for (std::size_t i = 0; i != table->num_all_attrs(); ++i) {
+                auto &attr = (*table)[i];
+                if (attr.reference and attr.reference->table.name() == it->first)
+                    attr.reference = nullptr;
+            }
+        }
         tables_.erase(it);
     };
 
-- 
2.43.0


From 508250146745d01ece198091c9a78167b0a252e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 74/82] fix: syntax errors in SELECT statements terminate the
 process

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 90e97a4..ea34bd8 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -152,7 +152,7 @@ void SerialScheduler::schedule_thread()
         auto cmd = sema.analyze(std::move(ast));
         err |= diag.num_errors() > 0; // sema errors
 
-        M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
+        M_insist(err or cmd, "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
             try {
-- 
2.43.0


From 61c8711d77e2da842c712affcab44525abd9060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 75/82] fix: tables and indexes named twice in DROP, failing
 CREATE INDEX and CREATE TABLE take effect partially

---
 src/catalog/DatabaseCommand.cpp |  2 ++
 src/parse/Sema.cpp              | 14 ++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index d4e6b62..3532a06 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -271,6 +271,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
@@ -316,6 +317,7 @@ void CreateIndex::execute(Diagnostic &diag)
         M_TIME_EXPR(index_->bulkload(table, schema), "Bulkload index", C.timer());
     } catch (invalid_argument) {
         diag.err() << "Could not bulkload index." << '\n';
+        return;
     }
 
     /* Add index to database. */
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 767fac8..16f4b10 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1640,9 +1640,10 @@ void Sema::operator()(DropTableStmt &s)
     std::vector<ThreadSafePooledString> table_names;
     for (auto &tok : s.table_names) {
         auto table_name = tok->text.assert_not_none();
-        if (DB.has_table(table_name))
-            table_names.emplace_back(std::move(table_name));
-        else {
+        if (DB.has_table(table_name)) {
+            if (not contains(table_names, table_name)) // drop every table once
+                table_names.emplace_back(std::move(table_name));
+        } else {
             if (not s.has_if_exists) {
                 diag.e(tok->pos) << "Table " << table_name << " does not exist in database " << DB.name << ".\n";
                 ok = false;
@@ -1819,9 +1820,10 @@ void Sema::operator()(DropIndexStmt &s)
     std::vector<ThreadSafePooledString> index_names;
     for (auto &tok : s.index_names) {
         auto index_name = tok->text.assert_not_none();
-        if (DB.has_index(index_name))
-            index_names.emplace_back(index_name);
-        else {
+        if (DB.has_index(index_name)) {
+            if (not contains(index_names, index_name)) // drop every index once
+                index_names.emplace_back(index_name);
+        } else {
             if (not s.has_if_exists) {
                 diag.e(tok->pos) << "Index " << index_name << " does not exist in database " << DB.name << ".\n";
                 ok = false;
-- 
2.43.0


From 7546417942864fdafdbb519c668d6f152b380264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 76/82] fix: grid search: number of points wraps around

---
 src/util/GridSearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/GridSearch.hpp b/src/util/GridSearch.hpp
index 7a93bd6..275707a 100644
--- a/src/util/GridSearch.hpp
+++ b/src/util/GridSearch.hpp
@@ -148,7 +148,7 @@ struct GridSearch
 
     std::size_t num_points() const {
         return std::apply([](auto&... space) {
-            return ((space.num_steps() + 1) * ... );
+            return ((std::size_t(space.num_steps()) + 1) * ... );
         }, spaces_);
     }
 
-- 
2.43.0


From f6d3f96ee271ddf6a70a07356725ec57aad59658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 77/82] fix: arguments of options: trailing characters, and
 negative values for unsigned integers, are accepted

---
 src/util/ArgParser.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/util/ArgParser.cpp b/src/util/ArgParser.cpp
index c7a059d..36660d1 100644
--- a/src/util/ArgParser.cpp
+++ b/src/util/ArgParser.cpp
@@ -5,8 +5,10 @@
 #include <limits>
 #include <mutable/util/concepts.hpp>
 #include <mutable/util/macro.hpp>
+#include <stdexcept>
 #include <string>
 #include <string_view>
+#include <type_traits>
 
 
 using namespace m;
@@ -23,6 +25,13 @@ void check_next_arg(const char **&argv)
     }
 }
 
+/** Helper function to check that the entire argument `arg` was parsed and not just its first `len` characters. */
+void check_all_parsed(const char *arg, std::size_t len)
+{
+    if (arg[len])
+        throw std::invalid_argument("trailing characters");         //M_LCOV_EXCL_LINE
+}
+
 /** Helper function to parse integral values. */
 template<typename T>
 requires integral<T>
@@ -32,24 +41,30 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
 
     T i;
     try {
+        std::size_t len = 0; ///< the number of characters that were parsed
         /*----- Signed integer types. -----*/
         if constexpr (std::same_as<T, int>)
-            i = std::stoi(*argv);
+            i = std::stoi(*argv, &len);
         if constexpr (std::same_as<T, long>)
-            i = std::stol(*argv);
+            i = std::stol(*argv, &len);
         if constexpr (std::same_as<T, long long>)
-            i = std::stoll(*argv);
+            i = std::stoll(*argv, &len);
         /*----- Unsigned integer types. -----*/
+        if constexpr (std::is_unsigned_v<T>) {
+            if (std::string_view(*argv).find('-') != std::string_view::npos) // would wrap around
+                throw std::invalid_argument("negative value for unsigned type");          //M_LCOV_EXCL_LINE
+        }
         if constexpr (std::same_as<T, unsigned>) {
-            const unsigned long v = std::stoul(*argv);
+            const unsigned long v = std::stoul(*argv, &len);
             if (v > std::numeric_limits<unsigned>::max())
                 throw std::out_of_range("input exceeds range of type unsigned int");  //M_LCOV_EXCL_LINE
             i = unsigned(v);
         }
         if constexpr (std::same_as<T, unsigned long>)
-            i = std::stoul(*argv);
+            i = std::stoul(*argv, &len);
         if constexpr (std::same_as<T, unsigned long long>)
-            i = std::stoull(*argv);
+            i = std::stoull(*argv, &len);
+        check_all_parsed(*argv, len);
     }
 
     M_LCOV_EXCL_START
@@ -74,12 +89,14 @@ void help_parse(const char **&argv, const std::function<void(T)> &callback)
 
     T fp;
     try {
+        std::size_t len = 0; ///< the number of characters that were parsed
         if constexpr (std::same_as<T, float>)
-            fp = std::stof(*argv);
+            fp = std::stof(*argv, &len);
         if constexpr (std::same_as<T, double>)
-            fp = std::stod(*argv);
+            fp = std::stod(*argv, &len);
         if constexpr (std::same_as<T, long double>)
-            fp = std::stold(*argv);
+            fp = std::stold(*argv, &len);
+        check_all_parsed(*argv, len);
     }
 
     M_LCOV_EXCL_START
-- 
2.43.0


From ec597935b4bc78c95f2954ffdaeb195598023e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 78/82] fix: the tools lex, parse and check report success for
 files which cannot be opened and for failing statements

---
 src/check.cpp | 12 +++++++++---
 src/lex.cpp   |  1 +
 src/parse.cpp |  1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/check.cpp b/src/check.cpp
index ac46746..94f7f83 100644
--- a/src/check.cpp
+++ b/src/check.cpp
@@ -67,7 +67,7 @@ int main(int argc, const char **argv)
     /* Create the diagnostics object. */
     Diagnostic diag(Options::Get().has_color, std::cout, std::cerr);
 
-    bool sema_error = false;
+    bool has_error = false; // whether any input contains an error
     Catalog &C = Catalog::Get();
 
     /* Process all the inputs. */
@@ -86,6 +86,7 @@ int main(int argc, const char **argv)
             else
                 std::cerr << "Failed to open the file '" << filename << "': ";
             std::cerr << strerror(errno) << std::endl;
+            std::exit(EXIT_FAILURE);
         }
 
         Lexer lexer(diag, C.get_pool(), filename, *in);
@@ -95,23 +96,28 @@ int main(int argc, const char **argv)
         while (parser.token()) {
             auto stmt = parser.parse_Stmt();
             if (diag.num_errors()) {
+                has_error = true;
                 diag.clear();
                 continue;
             }
             auto cmd = sema.analyze(std::move(stmt));
-            sema_error = sema_error or diag.num_errors();
             if (diag.num_errors()) {
+                has_error = true;
                 diag.clear();
                 continue;
             }
             if (Options::Get().ast) cmd->ast().dump(std::cout);
             if (is<const DDLCommand>(cmd))
                 cmd->execute(diag);
+            if (diag.num_errors()) {
+                has_error = true;
+                diag.clear();
+            }
         }
 
         if (in != &std::cin)
             delete in;
     }
 
-    std::exit(sema_error ? EXIT_FAILURE : EXIT_SUCCESS);
+    std::exit(has_error ? EXIT_FAILURE : EXIT_SUCCESS);
 }
diff --git a/src/lex.cpp b/src/lex.cpp
index 4ff1469..caad4d1 100644
--- a/src/lex.cpp
+++ b/src/lex.cpp
@@ -68,6 +68,7 @@ int main(int argc, const char **argv)
         else
             std::cerr << "Failed to open the file '" << filename << "': ";
         std::cerr << strerror(errno) << std::endl;
+        std::exit(EXIT_FAILURE);
     }
 
     Diagnostic diag(color, std::cout, std::cerr);
diff --git a/src/parse.cpp b/src/parse.cpp
index 117fbe0..bd21bc6 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -74,6 +74,7 @@ int main(int argc, const char **argv)
         else
             std::cerr << "Failed to open the file '" << filename << "': ";
         std::cerr << strerror(errno) << std::endl;
+        std::exit(EXIT_FAILURE);
     }
 
     Diagnostic diag(color, std::cout, std::cerr);
-- 
2.43.0


From 0f4150c881c30499455fd55c89f873c726837cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 79/82] fix: nested statements leak when the FROM clause is
 erroneous

---
 src/parse/Parser.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index f77aa7d..4c42fe9 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -811,25 +811,30 @@ std::unique_ptr<Clause> Parser::parse_FromClause()
 
     /* table-or-select-statement { ',' table-or-select-statement } */
     std::vector<FromClause::from_type> from;
+    /* Upon an error, the nested statements parsed so far must be released.  Their owner is the `FromClause`. */
+    auto discard = [&]() -> std::unique_ptr<Clause> {
+        FromClause(start, std::move(from));
+        return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
+    };
     do {
         Token alias = Token::CreateArtificial();
         if (accept(TK_LPAR)) {
             std::unique_ptr<Stmt> S = parse_SelectStmt();
             if (not expect(TK_RPAR))
-                return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
+                return discard();
             accept(TK_As);
             alias = token();
             if (not expect(TK_IDENTIFIER))
-                return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
+                return discard();
             from.emplace_back(std::move(S), std::move(alias));
         } else {
             Token table = token();
             if (not expect(TK_IDENTIFIER))
-                return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
+                return discard();
             if (accept(TK_As)) {
                 alias = token();
                 if (not expect(TK_IDENTIFIER))
-                    return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
+                    return discard();
             } else if (token().type == TK_IDENTIFIER) {
                 alias = token();
                 consume();
-- 
2.43.0


From 23a6591d4e40037d2a07312d914bfb437b172b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 80/82] fix: SPN: bounds of continuous leaves, probabilities of
 NULL, updates and deletions are wrong; learning and updating access memory
 out of bounds

---
 src/util/Spn.cpp | 95 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 77 insertions(+), 18 deletions(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index eb7789f..220b9bb 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -124,15 +124,15 @@ void Spn::Sum::update(VectorXf &row, SmallBitset variables, Spn::UpdateType upda
         }
     }
 
-    /* adjust weights of the sum nodes */
-    children[nearest_centroid]->child->num_rows++;
-    num_rows++;
-
-    for (std::size_t i = 0; i < num_clusters; i++) {
-        children[i]->weight = children[i]->child->num_rows / float(num_rows);
-    }
-
+    /* update the nearest cluster; every node counts its rows itself */
     children[nearest_centroid]->child->update(row, variables, update_type);
+
+    /* adjust weights of the sum nodes */
+    num_rows = 0;
+    for (auto &child : children)
+        num_rows += child->child->num_rows;
+    for (auto &child : children)
+        child->weight = num_rows ? child->child->num_rows / float(num_rows) : 0.f;
 }
 
 std::size_t Spn::Sum::estimate_number_distinct_values(unsigned id) const
@@ -179,6 +179,11 @@ std::pair<float, float> Spn::Product::evaluate(const Filter &filter, unsigned le
 
 void Spn::Product::update(VectorXf &row, SmallBitset variables, UpdateType update_type)
 {
+    if (update_type == INSERT)
+        num_rows++;
+    else if (num_rows)
+        num_rows--;
+
     std::unordered_map<unsigned, unsigned> variable_to_index;
     unsigned index = 0;
     for (auto it = variables.begin(); it != variables.end(); ++it) { variable_to_index.emplace(*it, index++); }
@@ -309,6 +314,8 @@ void Spn::DiscreteLeaf::update(VectorXf &row, SmallBitset variables, Spn::Update
         return;
     }
 
+    const std::size_t old_num_rows = num_rows;
+
     /* copy bins with the actual number of values in a bin */
     std::vector<Bin> updated_bins;
     updated_bins.reserve(bins.size());
@@ -331,11 +338,19 @@ void Spn::DiscreteLeaf::update(VectorXf &row, SmallBitset variables, Spn::Update
     /* delete the update value from the correct bin  */
     else {
         auto lower_bound = std::lower_bound(updated_bins.begin(), updated_bins.end(), value);
-        if (lower_bound->value != value) { return; }
+        if (lower_bound == updated_bins.end() or lower_bound->value != value) { return; }
+        if (lower_bound->cumulative_probability < .5f) { return; } // there is no such value anymore
         lower_bound->cumulative_probability -= 1;
         num_rows--;
     }
 
+    if (num_rows == 0) { // the last row was deleted
+        bins.clear();
+        null_probability = 0.f;
+        return;
+    }
+    null_probability *= old_num_rows / float(num_rows);
+
     /* calculate the cumulative probability */
     updated_bins[0].cumulative_probability /= float(num_rows);
     for (std::size_t i = 1; i < updated_bins.size(); i++) {
@@ -381,7 +396,7 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
 
     if (spn_operator == SpnOperator::EXPECTATION) {
         float expectation = lower_bound * lower_bound_probability;
-        expectation += bins[0].cumulative_probability * ((bins[0].upper_bound + lower_bound) / 2.f);
+        expectation += (bins[0].cumulative_probability - lower_bound_probability) * ((bins[0].upper_bound + lower_bound) / 2.f);
         float prev_probability = bins[0].cumulative_probability;
         float prev_upper_bound = bins[0].upper_bound;
         for (std::size_t bin_id = 1; bin_id < bins.size(); bin_id++) {
@@ -403,7 +418,7 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
             return { probability, probability };
         }
         auto std_lower_bound = std::lower_bound(bins.begin(), bins.end(), value);
-        probability = std_lower_bound->cumulative_probability - (--std_lower_bound)->cumulative_probability;
+        probability = std_lower_bound->cumulative_probability - std::prev(std_lower_bound)->cumulative_probability;
         return { probability, probability };
     }
 
@@ -420,8 +435,18 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         }
         if (value <= bins[0].upper_bound) {
             float prob = bins[0].cumulative_probability - lower_bound_probability;
-            probability = lower_bound_probability +
-                (prob * ((value - lower_bound) / (bins[0].upper_bound - lower_bound)));
+            switch (eval_type) {
+                case APPROXIMATE:
+                    probability = lower_bound_probability +
+                        (prob * ((value - lower_bound) / (bins[0].upper_bound - lower_bound)));
+                    break;
+                case UPPER_BOUND:
+                    probability = bins[0].cumulative_probability;
+                    break;
+                case LOWER_BOUND:
+                    probability = lower_bound_probability;
+                    break;
+            }
             return { probability, probability };
         }
         auto std_lower_bound = std::lower_bound(bins.begin(), bins.end(), value);
@@ -432,10 +457,13 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         switch (eval_type) {
             case APPROXIMATE:
                 probability = prev_bin.cumulative_probability + (bin_probability * percentile);
+                break;
             case UPPER_BOUND:
                 probability = bin.cumulative_probability;
+                break;
             case LOWER_BOUND:
                 probability = prev_bin.cumulative_probability;
+                break;
         }
         return { probability, probability };
     }
@@ -452,7 +480,18 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         if ((std::prev(bins.end()))->upper_bound <= value) { return { 0.f, 0.f }; }
         if (value <= bins[0].upper_bound) {
             float prob = bins[0].cumulative_probability - lower_bound_probability;
-            float split_bin_prob = (prob * (1.f - ((value - lower_bound) / (bins[0].upper_bound - lower_bound))));
+            float split_bin_prob;
+            switch (eval_type) {
+                case APPROXIMATE:
+                    split_bin_prob = (prob * (1.f - ((value - lower_bound) / (bins[0].upper_bound - lower_bound))));
+                    break;
+                case UPPER_BOUND:
+                    split_bin_prob = prob;
+                    break;
+                case LOWER_BOUND:
+                    split_bin_prob = 0.f;
+                    break;
+            }
             probability = last_prob - bins[0].cumulative_probability + split_bin_prob;
             return { probability, probability };
         }
@@ -464,10 +503,13 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         switch (eval_type) {
             case APPROXIMATE:
                 probability = last_prob - bin.cumulative_probability + (bin_probability * percentile);
+                break;
             case UPPER_BOUND:
                 probability = last_prob - prev_bin.cumulative_probability;
+                break;
             case LOWER_BOUND:
                 probability = last_prob - bin.cumulative_probability;
+                break;
         }
         return { probability, probability };
     }
@@ -481,13 +523,17 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
 
     if (bins.empty()) {
         if (update_type == INSERT) {
-            bins.emplace_back(value, 1.f/(num_rows + 1));
+            lower_bound = value;
+            lower_bound_probability = 1.f/(num_rows + 1);
+            bins.emplace_back(value, lower_bound_probability);
             null_probability = (null_probability * num_rows) / (num_rows + 1);
             num_rows++;
         }
         return;
     }
 
+    const std::size_t old_num_rows = num_rows;
+
     /* copy bins with the actual number of values in a bin */
     std::vector<Bin> updated_bins;
     float updated_lower_bound_prob = lower_bound_probability * num_rows;
@@ -523,15 +569,23 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
     else {
         if (value < lower_bound or value > updated_bins[updated_bins.size() - 1].upper_bound) { return; }
         if (value == lower_bound) {
-            updated_lower_bound_prob += 1;
+            if (updated_lower_bound_prob < .5f) { return; } // there is no such value anymore
+            updated_lower_bound_prob -= 1;
         } else {
             auto std_lower_bound = std::lower_bound(updated_bins.begin(), updated_bins.end(), value);
-            if (std_lower_bound->cumulative_probability == 0) { return; }
+            if (std_lower_bound->cumulative_probability < .5f) { return; } // there is no such value anymore
             std_lower_bound->cumulative_probability -= 1;
         }
         num_rows--;
     }
 
+    if (num_rows == 0) { // the last row was deleted
+        bins.clear();
+        lower_bound_probability = null_probability = 0.f;
+        return;
+    }
+    null_probability *= old_num_rows / float(num_rows);
+
     /* calculate the cumulative probability */
     updated_lower_bound_prob /= float(num_rows);
     updated_bins[0].cumulative_probability /= float(num_rows);
@@ -706,6 +760,7 @@ std::unique_ptr<Spn::Sum> Spn::create_sum(Spn::LearningData &ld)
         ) {
             std::vector<std::unique_ptr<Sum::ChildWithWeight>> children;
             for (std::size_t cluster_id = 0; cluster_id < k - 1; cluster_id++) {
+                if (prev_cluster_row_ids[cluster_id].empty()) continue; // nothing to learn
                 const MatrixXf &data = ld.data(prev_cluster_row_ids[cluster_id], all);
                 const MatrixXf &normalized = ld.normalized(prev_cluster_row_ids[cluster_id], all);
                 const MatrixXi &null_matrix = ld.null_matrix(prev_cluster_row_ids[cluster_id], all);
@@ -801,6 +856,7 @@ std::unique_ptr<Spn::Node> Spn::learn_node(LearningData &ld)
             for(std::size_t bin_id = 0; bin_id < num_bins; bin_id++) {
                 bins.emplace_back(min + (float(bin_id + 1) * bin_width), 0.f);
             }
+            bins.back().upper_bound = max; // despite of rounding
 
             /* fill the values into the existing bins */
             for (unsigned i = 0; i < num_rows; i++) {
@@ -891,22 +947,25 @@ Spn Spn::learn_spn(Eigen::MatrixXf &data, Eigen::MatrixXi &null_matrix, std::vec
 
 void Spn::update(VectorXf &row, UpdateType update_type)
 {
-    SmallBitset variables((1 << row.size()) - 1);
+    SmallBitset variables = SmallBitset::All(row.size());
     root_->update(row, variables, update_type);
 }
 
 float Spn::likelihood(const Filter &filter) const
 {
+    if (filter.empty()) return 1.f; // no condition
     return root_->evaluate(filter, filter.begin()->first, APPROXIMATE).second;
 }
 
 float Spn::upper_bound(const Filter &filter) const
 {
+    if (filter.empty()) return 1.f; // no condition
     return root_->evaluate(filter, filter.begin()->first, UPPER_BOUND).second;
 }
 
 float Spn::lower_bound(const Filter &filter) const
 {
+    if (filter.empty()) return 1.f; // no condition
     return root_->evaluate(filter, filter.begin()->first, LOWER_BOUND).second;
 }
 
-- 
2.43.0


From 3acaa928a9fd1b79d69a1175ff76c3f4922e5e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 81/82] fix: cardinality estimators: ill-typed files of
 injected cardinalities end the process; estimates exceed the input or wrap
 around; flipped comparisons are taken the wrong way

---
 src/catalog/CardinalityEstimator.cpp | 81 ++++++++++++++++++----------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 2228119..b7b78f4 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -204,7 +204,7 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
     json *database_entry;
     try {
         database_entry = &cardinalities.at(*name_of_database); //throws if key does not exist
-    } catch (json::out_of_range &out_of_range) {
+    } catch (json::exception &exception) {
         diag.w(pos) << "No entry for the db " << name_of_database << " in the file.\n"
                     << "A dummy estimator will be used to do estimations.\n";
         return;
@@ -212,11 +212,11 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
     cardinality_table_.reserve(database_entry->size());
     std::vector<std::string> names;
     for (auto &subproblem_entry : *database_entry) {
-        json* relations_array;
-        json* size;
+        std::size_t size;
+        names.clear();
         try {
-            relations_array = &subproblem_entry.at("relations");
-            size = &subproblem_entry.at("size");
+            names = subproblem_entry.at("relations").get<std::vector<std::string>>();
+            size = subproblem_entry.at("size").get<std::size_t>();
         } catch (json::exception &exception) {
             diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
                         << " does not have the required form of {\"relations\": ..., \"size\": ... } "
@@ -224,9 +224,6 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
             continue;
         }
 
-        names.clear();
-        for (auto it = relations_array->begin(); it != relations_array->end(); ++it)
-            names.emplace_back(it->get<std::string>());
         std::sort(names.begin(), names.end());
 
         buf_.clear();
@@ -237,8 +234,10 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
         }
         buf_.emplace_back(0);
         ThreadSafePooledString str = C.pool(buf_view());
-        auto res = cardinality_table_.emplace(std::move(str), *size);
-        M_insist(res.second, "insertion must not fail as we do not allow for duplicates in the input file");
+        auto res = cardinality_table_.emplace(std::move(str), size);
+        if (not res.second)
+            diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
+                        << " is a duplicate and will thus be ignored.\n";
     }
 }
 
@@ -457,7 +456,7 @@ struct FilterTranslator : ast::ConstASTExprVisitor {
                             value = float(val.as_i());
                             break;
                         case Numeric::N_Float:
-                            value = val.as_f();
+                            value = numeric.is_float() ? val.as_f() : float(val.as_d());
                             break;
                         case Numeric::N_Decimal:
                             value = float(val.as_d());
@@ -490,6 +489,17 @@ struct FilterTranslator : ast::ConstASTExprVisitor {
                 M_unreachable("Operator can't be handled");
         }
 
+        /* The filter is of the form "attribute op value". */
+        if (is<const ast::Constant>(*binary_expr.lhs)) {
+            switch (op) {
+                case Spn::LESS:          op = Spn::GREATER; break;
+                case Spn::LESS_EQUAL:    op = Spn::GREATER_EQUAL; break;
+                case Spn::GREATER:       op = Spn::LESS; break;
+                case Spn::GREATER_EQUAL: op = Spn::LESS_EQUAL; break;
+                default:                 break;
+            }
+        }
+
         (*this)(*binary_expr.lhs);
         (*this)(*binary_expr.rhs);
     }
@@ -500,6 +510,13 @@ struct FilterTranslator : ast::ConstASTExprVisitor {
     void operator()(const ast::QueryExpr &) { /* nothing to be done */ }
 };
 
+/** Returns the average frequency, but at least 1, of `num_distinct` many values (of which there may be none, if all are
+ * NULL) in `num_rows` many rows (which may be fewer, if they are filtered). */
+std::size_t average_frequency(std::size_t num_rows, std::size_t num_distinct)
+{
+    return num_distinct == 0 ? 1 : std::max<std::size_t>(num_rows / num_distinct, 1);
+}
+
 /** Visitor to translate a CNF join condition (get the two identifiers of an equi Join). */
 struct JoinTranslator : ast::ConstASTExprVisitor {
 
@@ -570,7 +587,7 @@ std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, SpnJoin &join)
     /* maximum frequency is only computed on data models which only have one Spn */
     const SpnWrapper &spn = data.spns_.begin()->second.get();
 
-    return is_primary_key ? 1 : data.num_rows_ / spn.estimate_number_distinct_values(spn_id);
+    return is_primary_key ? 1 : average_frequency(data.num_rows_, spn.estimate_number_distinct_values(spn_id));
 }
 
 std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, const ThreadSafePooledString &attribute)
@@ -580,7 +597,8 @@ std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, const ThreadSa
     auto &attr_to_id = spn.get_attribute_to_id();
     auto find_iter = attr_to_id.find(attribute);
 
-    return find_iter == attr_to_id.end() ? 1 : data.num_rows_ / spn.estimate_number_distinct_values(find_iter->second);
+    return find_iter == attr_to_id.end()
+        ? 1 : average_frequency(data.num_rows_, spn.estimate_number_distinct_values(find_iter->second));
 }
 
 /*----- Model calculation --------------------------------------------------------------------------------------------*/
@@ -662,12 +680,13 @@ std::unique_ptr<DataModel> SpnEstimator::estimate_grouping(const QueryGraph&, co
         auto &spn = spn_it->second.get();
         auto &attr_to_id = spn.get_attribute_to_id();
         if (auto attr_it = attr_to_id.find(designator->attr_name.text.assert_not_none()); attr_it != attr_to_id.end()) {
-            num_rows *= spn.estimate_number_distinct_values(attr_it->second);
+            num_rows = mul_wo_overflow(num_rows, spn.estimate_number_distinct_values(attr_it->second));
         } else {
-            num_rows *= spn.num_rows(); // if attribute is primary key, distinct values = num rows
+            num_rows = mul_wo_overflow(num_rows, spn.num_rows()); // if attribute is primary key, distinct values = num rows
         }
     }
-    model->num_rows_ = num_rows;
+    /* A grouping by keys cannot produce more tuples than it receives. */
+    model->num_rows_ = groups.empty() ? num_rows : std::min(num_rows, model->num_rows_);
     return model;
 }
 
@@ -698,23 +717,25 @@ SpnEstimator::estimate_join(const QueryGraph&, const DataModel &_left, const Dat
         /* compute the estimated cardinality of the join via distinct count estimates.
          * See http://www.cidrdb.org/cidr2021/papers/cidr2021_paper01.pdf */
         std::size_t mf_left = std::accumulate(
-                new_left->max_frequencies_.begin(), new_left->max_frequencies_.end(), 1, std::multiplies<>());
+                new_left->max_frequencies_.begin(), new_left->max_frequencies_.end(), 1UL,
+                mul_wo_overflow<std::size_t, std::size_t>);
 
         std::size_t mf_right = std::accumulate(
-                new_right->max_frequencies_.begin(), new_right->max_frequencies_.end(), 1, std::multiplies<>());
+                new_right->max_frequencies_.begin(), new_right->max_frequencies_.end(), 1UL,
+                mul_wo_overflow<std::size_t, std::size_t>);
 
         std::size_t left_clause = new_left->num_rows_ / mf_left;
         std::size_t right_clause = new_right->num_rows_ / mf_right;
 
-        std::size_t num_rows_join = std::min<std::size_t>(left_clause, right_clause) * mf_left * mf_right;
+        std::size_t num_rows_join = prod_wo_overflow(std::min(left_clause, right_clause), mf_left, mf_right);
 
         new_left->num_rows_ = num_rows_join;
     } else {
         /* compute cartesian product since there is no join condition */
-        if (left.spns_.size() == 1) { new_left->max_frequencies_.emplace_back(left.num_rows_); }
-        if (right.spns_.size() == 1) { new_right->max_frequencies_.emplace_back(right.num_rows_); }
+        if (left.spns_.size() == 1) { new_left->max_frequencies_.emplace_back(std::max<std::size_t>(left.num_rows_, 1)); }
+        if (right.spns_.size() == 1) { new_right->max_frequencies_.emplace_back(std::max<std::size_t>(right.num_rows_, 1)); }
 
-        new_left->num_rows_ = left.num_rows_ * right.num_rows_;
+        new_left->num_rows_ = mul_wo_overflow(left.num_rows_, right.num_rows_);
     }
 
     /* copy data from new_right to new_left to collect all information in one DataModel */
@@ -736,7 +757,8 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
         auto model = std::make_unique<SpnDataModel>();
         model->num_rows_ = 1UL;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            model->num_rows_ *= as<const SpnDataModel>(*PT[it.as_set()].model).num_rows_;
+            model->num_rows_ = mul_wo_overflow(model->num_rows_,
+                                               as<const SpnDataModel>(*PT[it.as_set()].model).num_rows_);
         return model;
     }
 
@@ -759,7 +781,9 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
     }
     /* else, maximum frequency is set as the number of rows (to compute the cartesian product) */
     else {
-        final_model.max_frequencies_.emplace_back(final_model.spns_.begin()->second.get().num_rows());
+        final_model.max_frequencies_.emplace_back(
+            std::max<std::size_t>(final_model.spns_.begin()->second.get().num_rows(), 1)
+        );
     }
 
     /* iteratively add the next model to join via distinct count estimates */
@@ -770,17 +794,20 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
         if (auto find_iter = table_to_attribute.find(table_name); find_iter != table_to_attribute.end()) {
             model.max_frequencies_.emplace_back(max_frequency(model, find_iter->second));
         } else {
-            model.max_frequencies_.emplace_back(model.spns_.begin()->second.get().num_rows());
+            model.max_frequencies_.emplace_back(
+                std::max<std::size_t>(model.spns_.begin()->second.get().num_rows(), 1)
+            );
         }
 
         std::size_t mf_left = std::accumulate(
-                final_model.max_frequencies_.begin(), final_model.max_frequencies_.end(), 1, std::multiplies<>());
+                final_model.max_frequencies_.begin(), final_model.max_frequencies_.end(), 1UL,
+                mul_wo_overflow<std::size_t, std::size_t>);
         std::size_t mf_right = model.max_frequencies_[0];
 
         std::size_t left_clause = final_model.num_rows_ / mf_left;
         std::size_t right_clause = model.num_rows_ / mf_right;
 
-        std::size_t num_rows_join = std::min<std::size_t>(left_clause, right_clause) * mf_left * mf_right;
+        std::size_t num_rows_join = prod_wo_overflow(std::min(left_clause, right_clause), mf_left, mf_right);
 
         final_model.num_rows_ = num_rows_join;
 
-- 
2.43.0


From 322598ddfe7836293fbb6cb6bf4b022055fead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:33 +0000
Subject: [PATCH 82/82] fix: print of tuples must not read beyond the end of
 shorter texts

---
 src/IR/Tuple.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 48363f3..8223df8 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -1,5 +1,6 @@
 #include <mutable/IR/Tuple.hpp>
 
+#include <cstring>
 #include <ctime>
 #include <mutable/catalog/Schema.hpp>
 #include <mutable/catalog/Type.hpp>
@@ -18,7 +19,12 @@ void Value::print(std::ostream &out, const Type &ty) const
 {
     visit(overloaded {
         [this, &out](const Boolean&) { out << (as_b() ? "TRUE" : "FALSE"); },
-        [this, &out](const CharacterSequence &cs) { out << '"'; out.write(as<const char*>(), cs.length); out << '"'; },
+        [this, &out](const CharacterSequence &cs) {
+            const char *str = as<const char*>(); // may be shorter than `cs.length`
+            out << '"';
+            out.write(str, strnlen(str, cs.length));
+            out << '"';
+        },
         [this, &out](const Date&) {
             const int32_t date = as_i(); // signed because year is signed
             const auto oldfill = out.fill('0');
-- 
2.43.0

