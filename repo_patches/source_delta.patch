From 682f775af6329e6ee029c5731df398e5f4dcdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 01/27] fix: keep effectful value instructions when
 rewrite_switch splices a chain block

---
 sonolus/backend/_opt/midend.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 8c631f4..fa1d9dd 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -4108,7 +4108,9 @@ cdef bint _rsw_block_empty(Func f, int32_t b) noexcept nogil:
     istart = f.blocks[b].instr_start
     icount = f.blocks[b].instr_count
     for i in range(istart, istart + icount):
-        if f.instrs[i].flags & FLAG_STMT_ROOT:
+        # A side-effecting op whose result was assigned is an SSA value, not a
+        # statement root, but dropping its block would still drop the effect.
+        if f.instrs[i].flags & (FLAG_STMT_ROOT | FLAG_SIDE_EFFECT):
             return False
     return True
 
-- 
2.43.0


From 59e88124d24c21d050a7ff0eef6f1c63e9bb83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:50 +0000
Subject: [PATCH 02/27] fix: keep the C compiler from replacing pow with
 constant exponents in fold kernels

---
 sonolus/backend/_opt/kernels.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/kernels.pyx b/sonolus/backend/_opt/kernels.pyx
index 6224cc4..56a6fb5 100644
--- a/sonolus/backend/_opt/kernels.pyx
+++ b/sonolus/backend/_opt/kernels.pyx
@@ -78,11 +78,19 @@ from libc.math cimport (
     tan,
     tanh,
 )
-from libc.math cimport pow as c_pow
 from libc.math cimport round as c_round
 from libc.math cimport trunc as c_trunc
 from libc.stdlib cimport free, malloc
 
+cdef extern from *:
+    """
+    #include <math.h>
+    // Always libm's pow, as CPython's float.__pow__ uses: with a visible constant exponent the C
+    // compiler may substitute e.g. x * x for pow(x, 2.0), which can differ in the last bit.
+    static double (*volatile sonolus_libm_pow)(double, double) = pow;
+    """
+    double c_pow "sonolus_libm_pow"(double x, double y) noexcept nogil
+
 from sonolus.backend._opt._ops_gen cimport *  # OP_* ids, OP_TABLE_SIZE, SONOLUS_OP_FOLDABLE
 
 
-- 
2.43.0


From 8d9c8b9c2618f056ea971f3e589cf0366ff90381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:26 +0000
Subject: [PATCH 03/27] fix: refuse rewrite_switch splices that merge different
 values over parallel edges

---
 sonolus/backend/_opt/midend.pyx | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index fa1d9dd..095cccf 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -4159,7 +4159,7 @@ cdef bint _rsw_relocatable(Func f, int32_t nxt, set ext) except -1:
     return True
 
 
-def _rsw_splice_safe(Func f, list kept, list nxt_edges, int32_t nxt):
+def _rsw_splice_safe(Func f, list kept, list nxt_edges, int32_t nxt, list incoming):
     # Refuse a splice that would give the head parallel edges to one target
     # carrying UNEQUAL phi operands. After splicing, the head (with edges ``kept``,
     # its default to nxt removed) also gains nxt's edges. If nxt shares a successor
@@ -4167,15 +4167,20 @@ def _rsw_splice_safe(Func f, list kept, list nxt_edges, int32_t nxt):
     # the value at the head's exit) and nxt's spliced edge (operand = the value at
     # nxt's exit). Those operands are EQUAL only when nxt passes the value through
     # unchanged; they DIFFER when T's phi operand on the nxt->T edge is a value
-    # DEFINED in nxt (an escaping const, the shape _rsw_relocatable admits). That
-    # violates the parallel-same-pred equal-operand invariant (crashing SSA export
-    # and mis-lowering the naive out_of_ssa), so refuse those splices.
+    # DEFINED in nxt (an escaping const, the shape _rsw_relocatable admits) or when
+    # the two edges simply merge different values (e.g. a const GVN already moved to
+    # a dominator of nxt). That violates the parallel-same-pred equal-operand
+    # invariant (crashing SSA export and mis-lowering the naive out_of_ssa), so
+    # refuse those splices.
     cdef int32_t istart = f.blocks[nxt].instr_start
     cdef int32_t icount = f.blocks[nxt].instr_count
-    cdef int32_t t, ps, pc, p, astart, k, a
-    b_targets = set()
+    cdef int32_t t, ps, pc, p, astart, k, a, kb, kn
+    b_targets = {}
+    b_conds = set()
     for ed in kept:
-        b_targets.add(<int32_t>(<dict>ed)["dst"])
+        b_targets.setdefault(<int32_t>(<dict>ed)["dst"], <int32_t>(<dict>ed)["key"])
+        if <int32_t>(<dict>ed)["ck"] == EDGE_COND_VALUE:
+            b_conds.add((<dict>ed)["cond"])
     for ed in nxt_edges:
         t = <int32_t>(<dict>ed)["dst"]
         if t not in b_targets:
@@ -4190,6 +4195,14 @@ def _rsw_splice_safe(Func f, list kept, list nxt_edges, int32_t nxt):
                 a = <int32_t>f.args[astart + k]
                 if istart <= a < istart + icount:
                     return False
+        if <int32_t>(<dict>ed)["ck"] == EDGE_COND_VALUE and (<dict>ed)["cond"] in b_conds:
+            continue  # duplicate cond: the edge is dropped on splice
+        kb = <int32_t>(<list>incoming[t]).index(b_targets[t])
+        kn = <int32_t>(<list>incoming[t]).index((<dict>ed)["key"])
+        for p in range(ps, ps + pc):
+            astart = f.instrs[p].arg_start
+            if f.args[astart + kb] != f.args[astart + kn]:
+                return False
     return True
 
 
@@ -4272,6 +4285,7 @@ def _run_rewrite_switch(Func f):
 
     # (2) combine_blocks: splice same-test empty single-pred default chains.
     ext = _rsw_ext_ref(f)
+    cdef list incoming = _incoming_by_block(f)
     # Per-block incoming-edge count over the mutable model, maintained
     # incrementally across splices so the single-predecessor test is O(1).
     # Seeding from the marshaled edges is valid because (1) rewrites edge
@@ -4313,7 +4327,7 @@ def _run_rewrite_switch(Func f):
         kept = [ed for ed in <list>out[b] if ed is not default]
         # splice-safety: refuse if it would create parallel edges from b to a
         # shared successor carrying unequal phi operands (see _rsw_splice_safe).
-        if not _rsw_splice_safe(f, kept, <list>out[nxt], nxt):
+        if not _rsw_splice_safe(f, kept, <list>out[nxt], nxt, incoming):
             continue
         # splice.
         existing = set()
@@ -4348,7 +4362,6 @@ def _run_rewrite_switch(Func f):
     reach = set(_rsw_rpo(out, entry, nb))
     pblocks = []
     cdef int32_t vid, istart, icount
-    cdef list incoming = _incoming_by_block(f)
     for b in range(nb):
         items = []
         istart = f.blocks[b].instr_start
-- 
2.43.0


From 5d83a139b818579098579022237d8c7273aa68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 04/27] fix: give a loop-header entry block a preheader before
 SSA construction

When the entry block is itself a branch target, the variable read of a
temporary that is never written followed the single-predecessor chain round
the loop forever (the compiler hung, growing without bound), and phis at the
entry lacked the operand for the path from outside.
---
 sonolus/backend/_opt/midend.pyx | 48 +++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 095cccf..9ede740 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -1637,8 +1637,56 @@ cdef int32_t _add_place(Func dst, uint8_t kind, uint8_t flags, int32_t block_ref
     return pid
 
 
+cdef bint _detach_entry(Func func) except -1:
+    # The entry is also reached from outside, which no edge represents. When it is
+    # a branch target (a loop header), its phis would have no operand for that
+    # path and an undefined variable's single-predecessor chain would never end,
+    # so put an empty block in front of it. Renumbers ``func`` in place.
+    cdef int32_t e, i
+    cdef bint targeted = False
+    for e in range(func.n_edges):
+        if func.edges[e].dst == func.entry_block:
+            targeted = True
+            break
+    if not targeted:
+        return False
+    cdef int32_t nb = func.n_blocks
+    cdef BlockInfo* blocks = <BlockInfo*>realloc(func.blocks, <size_t>(nb + 1) * sizeof(BlockInfo))
+    if blocks == NULL:
+        raise MemoryError()
+    func.blocks = blocks
+    func.cap_blocks = nb + 1
+    func._push_edge(0, func.entry_block + 1, None)
+    cdef Edge entry_edge = func.edges[func.n_edges - 1]
+    # Shift everything up by one, keeping edges grouped by ascending source.
+    for e in range(func.n_edges - 1, 0, -1):
+        func.edges[e] = func.edges[e - 1]
+        func.edges[e].src += 1
+        func.edges[e].dst += 1
+    func.edges[0] = entry_edge
+    for i in range(nb, 0, -1):
+        func.blocks[i] = func.blocks[i - 1]
+        func.blocks[i].edge_start += 1
+        func.blocks[i].rpo = i
+    for i in range(func.n_instrs):
+        func.instrs[i].block += 1
+    func.n_blocks = nb + 1
+    func.entry_block = 0
+    func.blocks[0].instr_start = 0
+    func.blocks[0].instr_count = 0
+    func.blocks[0].test_val = -1
+    func.blocks[0].edge_start = 0
+    func.blocks[0].edge_count = 1
+    func.blocks[0].phi_start = 0
+    func.blocks[0].phi_count = 0
+    func.blocks[0].rpo = 0
+    func.blocks[0].idom = -1
+    return True
+
+
 cdef Func build_ssa(Func func):
     """Construct value-based SSA over ``func`` (Braun); returns a fresh SSA Func."""
+    _detach_entry(func)
     cdef _SSABuilder builder = _SSABuilder(func)
     builder._run()
     return builder._compact()
-- 
2.43.0


From 721c1341bc17ceaab842e12d243cf5a12851605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 05/27] fix: stop IRConst constructions from rewriting shared
 constants

IRConst(x) returned a cached shared constant from __new__ whose value __init__
then overwrote, so IRConst(-0.0), IRConst(2.0) or IRConst(True) changed every
existing IRConst(0), IRConst(2) or IRConst(1) in the process, and what a
program compiled to depended on which constants had been built before.
---
 sonolus/backend/ir.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/sonolus/backend/ir.py b/sonolus/backend/ir.py
index 03fd5e1..0d08c4a 100644
--- a/sonolus/backend/ir.py
+++ b/sonolus/backend/ir.py
@@ -15,16 +15,10 @@ class IRConst:
     value: float | int
 
     def __new__(cls, value):
-        if float(value).is_integer():
-            int_value = int(value)
-            if _IR_CONST_CACHE_START <= int_value < _IR_CONST_CACHE_STOP:
-                return _IR_CONST_CACHE[int_value - _IR_CONST_CACHE_START]
-            else:
-                return _create_raw_const(int_value)
-        return super().__new__(cls)
-
-    def __init__(self, value: float):
-        self.value = value
+        # Only plain ints are shared, so that no construction changes an existing constant.
+        if type(value) is int and _IR_CONST_CACHE_START <= value < _IR_CONST_CACHE_STOP:
+            return _IR_CONST_CACHE[value - _IR_CONST_CACHE_START]
+        return _create_raw_const(value)
 
     def __repr__(self):
         return f"IRConst({self.value!r})"
-- 
2.43.0


From 53f64149e649fe458fba2c3baf06b20a6192a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 06/27] fix: keep dots in item names when loading a collection
 from an scp

An item named a.b is written to a file a.b but was loaded back as a, so it was
renamed and could replace another item.
---
 sonolus/build/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 41ad349..3a253a5 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -220,7 +220,7 @@ class Collection:
             path = Path(zip_entry.filename)
             if path.parts[0] == "sonolus":
                 path = Path(*path.parts[1:])
-            item_name = path.stem
+            item_name = path.name
 
             if self._is_valid_category(dir_name):
                 self.categories[dir_name][item_name] = item_details
-- 
2.43.0


From fb595d0429f1e5fab8ee2deaca3c1d54220a2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 07/27] fix: rewrite repository files an interrupted write left
 incomplete

A collection written again over the output of a write that failed part way
(disk full, killed) skipped the truncated file because it existed, leaving a
resource whose bytes do not match its hash.
---
 sonolus/build/collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 3a253a5..4a8efe4 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -309,8 +309,9 @@ class Collection:
 
         for key, data in self.repository.items():
             target_path = repo_dir / key
-            if target_path.exists():
-                # Since the content is identified by its hash, a matching file can be skipped
+            if target_path.exists() and target_path.stat().st_size == len(data):
+                # Since the content is identified by its hash, a matching file can be skipped,
+                # but not one that an interrupted write left incomplete
                 continue
             target_path.write_bytes(data)
 
-- 
2.43.0


From 5859bdcc3785d4c3abb917f8dc0baa81e4fad7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 08/27] fix: load resource files in sorted order

Which item is the default of its category and which duplicate wins depended on
the order in which the file system lists directories.
---
 sonolus/build/collection.py | 6 +++---
 sonolus/build/project.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 4a8efe4..54862e5 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -98,7 +98,7 @@ class Collection:
     def load_from_source(self, path: PathLike | str) -> None:
         root_path = Path(path)
 
-        for category_dir in root_path.iterdir():
+        for category_dir in sorted(root_path.iterdir()):
             if not category_dir.is_dir():
                 continue
 
@@ -106,7 +106,7 @@ class Collection:
             if not self._is_valid_category(category_name):
                 continue
 
-            for item_dir in category_dir.iterdir():
+            for item_dir in sorted(category_dir.iterdir()):
                 if not item_dir.is_dir():
                     continue
 
@@ -123,7 +123,7 @@ class Collection:
                 item_data = self._localize_item(item_data)
                 item_data["name"] = item_dir.name
 
-                for resource_path in item_dir.iterdir():
+                for resource_path in sorted(item_dir.iterdir()):
                     if resource_path.name == "item.json":
                         continue
 
diff --git a/sonolus/build/project.py b/sonolus/build/project.py
index 934d5e2..f19f1fb 100644
--- a/sonolus/build/project.py
+++ b/sonolus/build/project.py
@@ -178,7 +178,7 @@ def load_resource(collection: Collection, asset: Asset | None, base_path: Path,
 
 def load_resources_files_to_collection(base_path: Path) -> Collection:
     collection = Collection()
-    for path in base_path.rglob("*.scp"):
+    for path in sorted(base_path.rglob("*.scp")):
         collection.load_from_scp(path)
     collection.load_from_source(base_path)
     return collection
-- 
2.43.0


From 76b403a46be8adf3f218fec8dc3e50231b1833c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 09/27] fix: compile the default unchecked element access of
 array-likes

---
 sonolus/script/array_like.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index 07be2b0..f7e8cd6 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -60,7 +60,6 @@ class ArrayLike[T](Sequence[T]):
             value: The value to set.
         """
 
-    @meta_fn
     def get_unchecked(self, index: Num) -> T:
         """Get the element at the given index possibly without bounds checking or conversion of negative indexes.
 
@@ -75,7 +74,6 @@ class ArrayLike[T](Sequence[T]):
         """
         return self[index]
 
-    @meta_fn
     def set_unchecked(self, index: Num, value: T):
         """Set the element at the given index possibly without bounds checking or conversion of negative indexes.
 
-- 
2.43.0


From 58e3733f7401e99853e8600481db30a5504c1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 10/27] fix: run the else clause of a loop over a tuple

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From fb0761f83cea6c90bb703f07f1fcc1a453d49599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 11/27] fix: apply the conditions of a generator expression
 over a tuple

---
 sonolus/script/internal/visitor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..957485a 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,22 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if not test._as_py_():
+                            skip_ctxs.append(ctx())
+                            set_ctx(ctx().into_dead())
+                            break
+                    else:
+                        ctx().test = test.ir()
+                        skip_ctxs.append(ctx().branch(0))
+                        set_ctx(ctx().branch(None))
+                if ctx().live:
+                    self.construct_genexpr(others, elt)
+                if skip_ctxs:
+                    set_ctx(Context.meet([ctx(), *skip_ctxs]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From 6c90d672e7710fdf38b0705a2bec869e0b1be0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 12/27] fix: skip the rest of a generator expression once a
 condition is known to be false

---
 sonolus/script/internal/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 957485a..23bccb2 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -614,13 +614,15 @@ class Visitor(ast.NodeVisitor):
                     else:
                         ctx().outgoing[None] = header_ctx
                         set_ctx(ctx().into_dead())
+                        break
                 else:
                     if_then_ctx = ctx().branch(None)
                     if_else_ctx = ctx().branch(0)
                     ctx().test = test.ir()
                     if_else_ctx.outgoing[None] = header_ctx
                     set_ctx(if_then_ctx)
-            self.construct_genexpr(others, elt)
+            if ctx().live:
+                self.construct_genexpr(others, elt)
             ctx().outgoing[None] = header_ctx
             set_ctx(else_ctx)
 
-- 
2.43.0


From 509b25233976c46c48958d0e19f35d1e8e9caa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 13/27] fix: leave later iterators alone once an iterator of a
 zip is exhausted

---
 sonolus/script/iterator.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sonolus/script/iterator.py b/sonolus/script/iterator.py
index a6fd17a..09fc8a9 100644
--- a/sonolus/script/iterator.py
+++ b/sonolus/script/iterator.py
@@ -73,24 +73,15 @@ class _Zipper[T](Record, SonolusIterator):
         iterators.append(v)
         return tuple(iterators)
 
-    @meta_fn
-    def _get_next_values(self) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(iterator.next) for iterator in self._get_iterators())
-
-    @meta_fn
-    def _values_to_tuple(self, values: tuple[Any, ...]) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(value.get_unsafe) for value in values)
-
     def next(self) -> Maybe[tuple[Any, ...]]:
-        values = self._get_next_values()
-        for value in values:
+        # As soon as one iterator is exhausted, the ones after it must not be advanced
+        values = ()
+        for iterator in self._get_iterators():
+            value = iterator.next()
             if value.is_nothing:
                 return Nothing
-        return Some(self._values_to_tuple(values))
+            values = (*values, value.get_unsafe())
+        return Some(values)
 
 
 class _EmptyIterator(Record, SonolusIterator):
-- 
2.43.0


From 16d1018350c5cbbdde5b8f12c09166e26e931906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 14/27] fix: keep values of earlier next calls on a generator
 when it is advanced

---
 sonolus/script/internal/visitor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 23bccb2..b87472a 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -33,7 +33,7 @@ from sonolus.script.internal.error import CompilationError
 from sonolus.script.internal.impl import validate_value
 from sonolus.script.internal.meta_fn import meta_fn
 from sonolus.script.internal.transient import TransientValue
-from sonolus.script.internal.tuple_impl import has_tuple_iter, tuple_iter
+from sonolus.script.internal.tuple_impl import TupleImpl, has_tuple_iter, tuple_iter
 from sonolus.script.internal.value import Value
 from sonolus.script.iterator import SonolusIterator
 from sonolus.script.maybe import Maybe, Nothing
@@ -1864,6 +1864,14 @@ class ReportingErrorsAtNode:
             self.compiler.raise_exception_at_node(self.node, exc_value)
 
 
+def _copy_nums(value: Any) -> Any:
+    if isinstance(value, Num):
+        return value if value._is_py_() else value._get_()
+    if isinstance(value, TupleImpl):
+        return TupleImpl(tuple(_copy_nums(v) for v in value.value))
+    return value
+
+
 class Generator(TransientValue, SonolusIterator):
     def __init__(
         self,
@@ -1891,7 +1899,10 @@ class Generator(TransientValue, SonolusIterator):
         self.exit.outgoing[self.i] = after_ctx
         self.i += 1
         set_ctx(after_ctx)
-        return self.value
+        if self.value is Nothing:
+            return Nothing
+        # The generator reuses the same storage for every value it yields, so later calls must not change this one
+        return Maybe(present=self.value._present._get_(), value=_copy_nums(self.value._value))
 
     def _validate_bindings(self):
         for key, value in self.used_bindings.items():
-- 
2.43.0


From 099ccbca3ae7f0d11ebecee49361a9c1a22d1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 15/27] fix: let VarArray.insert take an element of the array
 itself

---
 sonolus/script/containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sonolus/script/containers.py b/sonolus/script/containers.py
index 3e3f306..4be35aa 100644
--- a/sonolus/script/containers.py
+++ b/sonolus/script/containers.py
@@ -228,6 +228,7 @@ class VarArray[T, Capacity](Record, ArrayLike[T]):
         """
         index = clamp(get_positive_index(index, self._size, include_end=True), 0, self._size)
         assert self._size < len(self._array), "Array is full"
+        value = copy(value)  # It may be an element of this array, which is about to be shifted
         self._size += 1
         for i in range(self._size - 1, index, -1):
             self._array.set_unchecked(i, self._array.get_unchecked(i - 1))
-- 
2.43.0


From f6084c742c7382198b9d899dc35dd5be99e8067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 16/27] fix: honour the default of max and min over array-likes

---
 sonolus/script/internal/builtin_impls.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..d5cdad5 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -142,6 +142,8 @@ def _max(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                return compile_and_call(_max_array_default, iterable, default, key=key)
             return compile_and_call(iterable._max_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -202,6 +204,12 @@ def _max2_generic(a, b, key=_identity):
         return a
 
 
+def _max_array_default(array, default, key):
+    if len(array) == 0:
+        return default
+    return array._max_(key=key)
+
+
 def _max_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
@@ -238,6 +246,8 @@ def _min(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                return compile_and_call(_min_array_default, iterable, default, key=key)
             return compile_and_call(iterable._min_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -298,6 +308,12 @@ def _min2_generic(a, b, key=_identity):
         return a
 
 
+def _min_array_default(array, default, key):
+    if len(array) == 0:
+        return default
+    return array._min_(key=key)
+
+
 def _min_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
-- 
2.43.0


From 1469176b855cd46f266b12c9f691e54fbd135dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:53 +0000
Subject: [PATCH 17/27] fix: compare array fields of records in compiled code

---
 sonolus/script/record.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index 0a8e628..f2f1d83 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -366,7 +366,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return False
         result: Num = Num._accept_(True)
         for field in self._fields_:
-            result = result.and_(field.__get__(self) == field.__get__(other))
+            result = result.and_(_call_comparison("__eq__", field.__get__(self), field.__get__(other)))
         return result
 
     @meta_fn
@@ -375,7 +375,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return True
         result: Num = Num._accept_(False)
         for field in self._fields_:
-            result = result.or_(field.__get__(self) != field.__get__(other))
+            result = result.or_(_call_comparison("__ne__", field.__get__(self), field.__get__(other)))
         return result
 
     def __hash__(self):
@@ -443,6 +443,15 @@ class _RecordField(SonolusDescriptor):
             instance._value_[self.name]._copy_from_(value)
 
 
+def _call_comparison(name: str, a: Any, b: Any) -> Any:
+    if not ctx():
+        return a == b if name == "__eq__" else a != b
+    from sonolus.script.internal.visitor import compile_and_call
+
+    # The comparison may be an ordinary function with control flow, as it is for arrays
+    return compile_and_call(getattr(a, name), b)
+
+
 _ops_to_inplace_ops = {
     "__add__": "__iadd__",
     "__sub__": "__isub__",
-- 
2.43.0


From d6fdcf97406f137566016a2203fceccf768bcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 18/27] fix: keep level data references when an entity
 reference is copied or replaced

---
 sonolus/script/archetype.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..04ae6d9 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1687,6 +1687,14 @@ class EntityRef[A: _BaseArchetype](Record):
         super()._copy_from_(value)
         if hasattr(value, "_ref_"):
             self._ref_ = value._ref_
+        elif hasattr(self, "_ref_"):
+            del self._ref_
+
+    def _copy_(self) -> Self:
+        result = super()._copy_()
+        if hasattr(self, "_ref_"):
+            result._ref_ = self._ref_
+        return result
 
     @classmethod
     def _accepts_(cls, value: Any) -> bool:
-- 
2.43.0


From 25f5f2cc8d7ad256ab6dbe55245eb1bfec8205de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 19/27] fix: keep level data values that are false in a boolean
 context

---
 sonolus/script/archetype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 04ae6d9..4ec03fb 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -656,7 +656,9 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
         bound = self._data_constructor_signature_.bind_partial(*args, **kwargs)
         bound.apply_defaults()
         values = {
-            field.name: field.type._accept_(bound.arguments.get(field.name) or zeros(field.type))._get_()
+            field.name: field.type._accept_(
+                zeros(field.type) if (value := bound.arguments.get(field.name)) is None else value
+            )._get_()
             for field in self._imported_fields_.values()
         }
         self._data_ = _ArchetypeLevelData(values=values)
-- 
2.43.0


From 675d35143c5ee2f9ba82e2dfa8f307858eeff91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 20/27] fix: compile subclasses of derived archetypes on their
 own

---
 sonolus/backend/_opt/driver.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sonolus/backend/_opt/driver.pyx b/sonolus/backend/_opt/driver.pyx
index 8324068..3412453 100644
--- a/sonolus/backend/_opt/driver.pyx
+++ b/sonolus/backend/_opt/driver.pyx
@@ -336,7 +336,7 @@ def compile_mode(
         base_archetypes = []
         seen_base_archetypes = set()
         for a in archetypes:
-            base = getattr(a, "_derived_base_", a)
+            base = a.__dict__.get("_derived_base_", a)
             if base not in seen_base_archetypes:
                 seen_base_archetypes.add(base)
                 base_archetypes.append(base)
@@ -386,7 +386,7 @@ def compile_mode(
 
     if archetypes is not None:
         results["archetypes"] = [
-            {**base_archetype_entries[getattr(a, "_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
+            {**base_archetype_entries[a.__dict__.get("_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
             for a in archetypes
         ]
 
-- 
2.43.0


From b291a4a74f43aab8f589d8f4e1bfc8a3e9ce951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 21/27] fix: support int, float and bool data fields in streams

---
 sonolus/script/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 080fc9f..b7b2d31 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -9,6 +9,7 @@ from sonolus.backend.ops import Op
 from sonolus.script.array_like import check_positive_index
 from sonolus.script.internal.context import ctx
 from sonolus.script.internal.descriptor import SonolusDescriptor
+from sonolus.script.internal.generic import validate_concrete_type
 from sonolus.script.internal.introspection import get_field_specifiers
 from sonolus.script.internal.meta_fn import meta_fn
 from sonolus.script.internal.native import native_function
@@ -111,7 +112,9 @@ def streams[T](cls: type[T]) -> T:
                 # Streams store their data across several backing streams
                 entries.append((name, offset, annotation))
                 offset += annotation.backing_size()
-            elif issubclass(annotation, Value) and annotation._is_concrete_():
+            else:
+                # Also converts int, float, and bool to Num
+                annotation = validate_concrete_type(annotation)
                 setattr(cls, name, _StreamDataField(offset, annotation))
                 # Data fields store their data in a single backing stream at different offsets in the same stream
                 entries.append((name, offset, annotation))
-- 
2.43.0


From 01f63c0fc0ef0293ebffecb160f2dc7257837a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 22/27] fix: do not repeat the last item of a stream whose key
 is the time of the previous frame

---
 sonolus/script/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index b7b2d31..9eb5f2f 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -367,7 +367,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_items_from_desc(self, start: int | float, /) -> SonolusIterator[tuple[int | float, T]]:
         """Iterate over the items in the stream in descending order starting from the given key.
@@ -413,7 +413,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscKeyIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscKeyIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_keys_from_desc(self, start: int | float, /) -> SonolusIterator[int | float]:
         """Iterate over the keys in the stream in descending order starting from the given key.
@@ -459,7 +459,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscValueIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscValueIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_values_from_desc(self, start: int | float, /) -> SonolusIterator[T]:
         """Iterate over the values in the stream in descending order starting from the given key.
-- 
2.43.0


From 8889f549f4d63483dcc6105bfe7ebb18032a9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:54 +0000
Subject: [PATCH 23/27] fix: rebuild from the resources alone in the dev server

---
 sonolus/build/dev_server.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index 8f2ad69..5f15014 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -14,6 +14,7 @@ import sys
 import textwrap
 import threading
 import traceback
+from copy import deepcopy
 from dataclasses import dataclass
 from pathlib import Path
 from time import perf_counter, time
@@ -97,7 +98,7 @@ class ServerState:
     build_dir: Path
     config: BuildConfig
     project_state: ProjectContextState
-    collection: Collection
+    resources_collection: Collection | None  # The loaded resources, without anything added or changed by a build
     last_build_time: float
 
 
@@ -127,20 +128,28 @@ class RebuildCommand:
         print("Rebuilding...")
         try:
             start_time = perf_counter()
-
-            if path_was_modified_after(server_state.project.resources, server_state.last_build_time):
-                server_state.collection = load_resources_files_to_collection(server_state.project.resources)
+            project = project_module.project
+
+            if (
+                server_state.resources_collection is None
+                or project.resources != server_state.project.resources
+                or path_was_modified_after(project.resources, server_state.last_build_time)
+            ):
+                server_state.resources_collection = None
+                load_time = time()
+                server_state.resources_collection = load_resources_files_to_collection(project.resources)
+                server_state.last_build_time = load_time
 
             server_state.project_state = ProjectContextState.from_build_config(server_state.config)
-            server_state.project = project_module.project
+            server_state.project = project
+            collection = deepcopy(server_state.resources_collection)
             build_project_to_existing_collection(
                 server_state.project,
-                server_state.collection,
+                collection,
                 server_state.config,
                 project_state=server_state.project_state,
             )
-            write_collection(server_state.collection, server_state.build_dir, clear=False)
-            server_state.last_build_time = time()
+            write_collection(collection, server_state.build_dir, clear=False)
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
         except CompilationError:
@@ -297,7 +306,7 @@ def run_server(
     project_state = ProjectContextState.from_build_config(config)
 
     start_time = perf_counter()
-    collection = build_collection(project, build_dir, config, project_state=project_state)
+    build_collection(project, build_dir, config, project_state=project_state)
     end_time = perf_counter()
     print(f"Build finished in {end_time - start_time:.2f}s")
 
@@ -329,7 +338,7 @@ def run_server(
                 build_dir=build_dir,
                 config=config,
                 project_state=project_state,
-                collection=collection,
+                resources_collection=None,
                 last_build_time=time(),
             )
 
-- 
2.43.0


From 87cf0971e91f97faf9bc420394fd3ee0e750ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:02 +0000
Subject: [PATCH 24/27] fix: refuse expressions nested too deeply instead of
 exhausting the C stack

---
 sonolus/backend/_opt/ir.pxd |  1 +
 sonolus/backend/_opt/ir.pyx | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/sonolus/backend/_opt/ir.pxd b/sonolus/backend/_opt/ir.pxd
index c3bb0d2..50a4f7b 100644
--- a/sonolus/backend/_opt/ir.pxd
+++ b/sonolus/backend/_opt/ir.pxd
@@ -312,6 +312,7 @@ cdef class Func:
     cdef bint _writable_for_block(self, object member) except -1
     cdef int32_t _intern_place(self, object place, int32_t block_id) except -1
     cdef int32_t _value_of(self, object node, int32_t block_id) except -1
+    cdef int32_t _value_of_nested(self, object node, int32_t block_id) except -1
     cdef int32_t _emit_const(self, object value, int32_t block_id) except -1
     cdef int32_t _emit_pure(self, object node, int32_t block_id) except -1
     cdef int32_t _emit_impure(self, object node, int32_t block_id) except -1
diff --git a/sonolus/backend/_opt/ir.pyx b/sonolus/backend/_opt/ir.pyx
index 626c26d..8c247ea 100644
--- a/sonolus/backend/_opt/ir.pyx
+++ b/sonolus/backend/_opt/ir.pyx
@@ -11,6 +11,11 @@ from libc.stdlib cimport free, realloc
 from libc.string cimport memcpy
 from libc.math cimport isinf, isnan
 
+cdef extern from "Python.h":
+    int Py_EnterRecursiveCall(const char* where) except *
+    void Py_LeaveRecursiveCall()
+
+
 from sonolus.backend._opt._ops_gen cimport (
     OPX_CONST,
     OPX_GET,
@@ -381,6 +386,14 @@ cdef class Func:
     cdef int32_t _value_of(self, object node, int32_t block_id) except -1:
         if isinstance(node, IRConst):
             return self._emit_const(node.value, block_id)
+        # Expressions nested too deeply (or cyclic ones) must not exhaust the C stack.
+        Py_EnterRecursiveCall(b" while marshalling a nested expression")
+        try:
+            return self._value_of_nested(node, block_id)
+        finally:
+            Py_LeaveRecursiveCall()
+
+    cdef int32_t _value_of_nested(self, object node, int32_t block_id) except -1:
         if isinstance(node, IRPureInstr):
             return self._emit_pure(node, block_id)
         if isinstance(node, IRInstr):
-- 
2.43.0


From 3e332c6db5ccbb504f3fb96fa11843ee0c145824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:02 +0000
Subject: [PATCH 25/27] fix: free the block index map when rebuilding runs out
 of memory

---
 sonolus/backend/_opt/midend.pyx | 85 +++++++++++++++++----------------
 1 file changed, 43 insertions(+), 42 deletions(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 9ede740..42bab2a 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -954,50 +954,51 @@ cdef class _Cleaner:
         cdef int32_t* head2idx = <int32_t*>malloc(<size_t>self.nb * sizeof(int32_t))
         if head2idx == NULL:
             raise MemoryError()
-        for i in range(self.nb):
-            head2idx[i] = -1
-        for k in range(nb_out):
-            head2idx[<int32_t>order[k]] = k
-
-        for k in range(nb_out):
-            h = <int32_t>order[k]
-            dst.blocks[k].instr_start = dst.n_instrs
-            dst.blocks[k].phi_start = 0
-            dst.blocks[k].phi_count = 0
-            dst.blocks[k].rpo = k
-            dst.blocks[k].idom = -1
-            # statements: all chain members, in order.
-            node = self.chain_head[h]
-            while node != -1:
-                sb = self.cn_src[node]
-                for i in range(src.blocks[sb].instr_start, src.blocks[sb].instr_start + src.blocks[sb].instr_count):
-                    if src.instrs[i].flags & FLAG_STMT_ROOT:
-                        self._copy_stmt(dst, i, k)
-                node = self.cn_next[node]
-            # test: only where actually used (block has a case edge).
-            if self._has_value_edge(h):
-                tail_block = self.cn_src[self.chain_tail[h]]
-                if src.blocks[tail_block].test_val >= 0:
-                    dst.blocks[k].test_val = self._copy_value(dst, src.blocks[tail_block].test_val, k)
+        try:
+            for i in range(self.nb):
+                head2idx[i] = -1
+            for k in range(nb_out):
+                head2idx[<int32_t>order[k]] = k
+
+            for k in range(nb_out):
+                h = <int32_t>order[k]
+                dst.blocks[k].instr_start = dst.n_instrs
+                dst.blocks[k].phi_start = 0
+                dst.blocks[k].phi_count = 0
+                dst.blocks[k].rpo = k
+                dst.blocks[k].idom = -1
+                # statements: all chain members, in order.
+                node = self.chain_head[h]
+                while node != -1:
+                    sb = self.cn_src[node]
+                    for i in range(src.blocks[sb].instr_start, src.blocks[sb].instr_start + src.blocks[sb].instr_count):
+                        if src.instrs[i].flags & FLAG_STMT_ROOT:
+                            self._copy_stmt(dst, i, k)
+                    node = self.cn_next[node]
+                # test: only where actually used (block has a case edge).
+                if self._has_value_edge(h):
+                    tail_block = self.cn_src[self.chain_tail[h]]
+                    if src.blocks[tail_block].test_val >= 0:
+                        dst.blocks[k].test_val = self._copy_value(dst, src.blocks[tail_block].test_val, k)
+                    else:
+                        dst.blocks[k].test_val = -1
                 else:
                     dst.blocks[k].test_val = -1
-            else:
-                dst.blocks[k].test_val = -1
-            dst.blocks[k].instr_count = dst.n_instrs - dst.blocks[k].instr_start
-            # edges, sorted deterministically (unconditional last, then by cond).
-            dst.blocks[k].edge_start = dst.n_edges
-            for edge_idx in self._sorted_edge_indices(h):
-                i = <int32_t>edge_idx
-                if self.e_ck[i] == EDGE_COND_NONE:
-                    pycond = None
-                elif self.e_ci[i]:
-                    pycond = int(self.e_cond[i])
-                else:
-                    pycond = float(self.e_cond[i])
-                dst._push_edge(k, head2idx[self.e_dst[i]], pycond)
-            dst.blocks[k].edge_count = dst.n_edges - dst.blocks[k].edge_start
-
-        free(head2idx)
+                dst.blocks[k].instr_count = dst.n_instrs - dst.blocks[k].instr_start
+                # edges, sorted deterministically (unconditional last, then by cond).
+                dst.blocks[k].edge_start = dst.n_edges
+                for edge_idx in self._sorted_edge_indices(h):
+                    i = <int32_t>edge_idx
+                    if self.e_ck[i] == EDGE_COND_NONE:
+                        pycond = None
+                    elif self.e_ci[i]:
+                        pycond = int(self.e_cond[i])
+                    else:
+                        pycond = float(self.e_cond[i])
+                    dst._push_edge(k, head2idx[self.e_dst[i]], pycond)
+                dst.blocks[k].edge_count = dst.n_edges - dst.blocks[k].edge_start
+        finally:
+            free(head2idx)
         return dst
 
     cdef list _sorted_edge_indices(self, int32_t h):
-- 
2.43.0


From dc498104b2e54a1270dc314d1b12a58612899fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:02 +0000
Subject: [PATCH 26/27] fix: do not read the first argument of a subtraction or
 division without arguments

---
 sonolus/backend/_opt/lower.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sonolus/backend/_opt/lower.pyx b/sonolus/backend/_opt/lower.pyx
index e8472df..c8e03cd 100644
--- a/sonolus/backend/_opt/lower.pyx
+++ b/sonolus/backend/_opt/lower.pyx
@@ -1244,7 +1244,7 @@ cdef class _Lower:
                 return <int32_t>args[0]
             if len(args) == 0:
                 return self._dst_const(0.0, block)
-        elif op == OP_Subtract:
+        elif op == OP_Subtract and args:
             rest = [a for a in args[1:] if not self._is_dst_const(<int32_t>a, 0.0)]
             args = [args[0]] + rest
             if len(args) == 1:
@@ -1257,7 +1257,7 @@ cdef class _Lower:
                 return <int32_t>args[0]
             if len(args) == 0:
                 return self._dst_const(1.0, block)
-        elif op == OP_Divide:
+        elif op == OP_Divide and args:
             rest = [a for a in args[1:] if not self._is_dst_const(<int32_t>a, 1.0)]
             args = [args[0]] + rest
             if len(args) == 1:
-- 
2.43.0


From a5e504083ca2ec8c5938db586b2af195c5235097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:48 +0000
Subject: [PATCH 27/27] fix: keep fields of computed records assignable when a
 component folds to a constant

---
 sonolus/script/record.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index f2f1d83..cb25e3e 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -256,7 +256,10 @@ class Record(GenericValue, metaclass=RecordMeta):
         result = object.__new__(cls)
         for k, v in kwargs.items():
             if isinstance(v, int | float):
-                kwargs[k] = Num._accept_(v)
+                v = kwargs[k] = Num._accept_(v)
+            if ctx() and isinstance(v, Num) and v._is_py_():
+                # A constant, e.g. from folding an operation, must still be assignable as a field
+                kwargs[k] = v._get_()
         result._value_ = kwargs
         return result
 
-- 
2.43.0

