From 0117ab69c0c68331cba748c40657d5ba9623ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:53 +0000
Subject: [PATCH 01/51] fix: solver2 double-counts a nonground item that
 matches two subgoals of a rule

---
 dyna/execute/solver2.py | 2 +-
 dyna/program.py         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..d6297e5 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -21,7 +21,7 @@ class Solver(BaseSolver):
     """
 
     def __init__(self, program, debug=False, priority=None, AgendaType=LocatorMaxHeap):
-        program = program.linearize()   # so I don't have to worry about double counting diagonals...
+        program = program.linearize(nonground=True)   # so I don't have to worry about double counting diagonals...
         self.program = program
 
         self.chart = {}
diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..b4141f9 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -968,7 +968,7 @@ input/output declarations</summary>\
         if not isinstance(data, Program):
             data = Program(data, semiring=self.Semiring)
 
-        p = self.linearize()
+        p = self.linearize(nonground=True)   # as solver2 does, so that pass 1 knows the items of pass 2
 
         bound_program = p.magic_templates() if magic else p
 
@@ -1828,9 +1828,12 @@ input/output declarations</summary>\
     #___________________________________________________________________________
     # Program normalization
 
-    def linearize(self, driver=None):
+    def linearize(self, driver=None, nonground=False):
         """
         Split overlapping body subgoals into fresh copies so every rule is locally linear.
+        By default, subgoals overlap if a single ground item can match both of them; with
+        `nonground=True`, they overlap if a single (possibly nonground) item can match both,
+        e.g., the item `f(Z)` matches both subgoals of `f(X) * f(s(X))` or `f(1) * f(2)`.
         Note: this should not be confused with the type of linearization done in Newton's
         algorithm or `solve_linear`.
         """
@@ -1843,7 +1846,7 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
-                    if unifies(x, y):
+                    if unifies(x, y) or (nonground and isinstance(y, Term) and x.signature == y.signature):
                         tmps.add((i,k))
 
         if not tmps:
-- 
2.43.0


From bbd4d6a4bc12a906a9ec8ccfce6654596c3cc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 02/51] fix: generalizer is not the least general
 generalization when subterms repeat

---
 dyna/term.py | 67 ++++++++++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..d10790b 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -603,58 +603,41 @@ def fresh(z, nice_name=True):
 # Anti-unification
 
 def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
-    "Anti-unification algorithm"
+    """Anti-unification algorithm: the least general generalization of `t1` and `t2`.
+
+    Each distinct pair of disagreeing subterms gets its own variable; `s1` and
+    `s2` record what that variable stands for in `t1` and `t2`, respectively.
+    """
 
     if s1 is Ellipsis: s1 = {}
     if s2 is Ellipsis: s2 = {}
 
-    def traverse(x, y):
-
-        if x == y:
-            return x
+    table = {}      # pair of subterms -> variable
+    used = set()    # variables that already stand for some pair
 
-        elif isinstance(x, Var):   # x != y and x is a variable
+    def traverse(x, y):
+        x, y = snap(x), snap(y)
 
-            if x.occurs_check(y):
-                if x not in s1:
-                    s1[x] = Var()
-                return s1[x]
+        if isinstance(x, Term) and isinstance(y, Term) and len(x) == len(y) and x.fn == y.fn:
+            return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
-            if x in s1:             # already have an subst for `x`, it must match.
-                if s1[x] != y:
-                    s1[x] = Var()
-                    return s1[x]
-            else:
-                s1[x] = y            # Note: we do *not* need to copy `s`.
+        if x == y and not isinstance(x, Var):
             return x
 
-        elif isinstance(y, Var):   # x != y, x is not a variable, y is a variable
-
-            if y.occurs_check(x):
-                if y not in s2: s2[y] = Var()
-                return s2[y]
-
-            if y in s2:
-                if s2[y] != x:
-                    s2[y] = Var()
-                    return s2[y]
+        z = table.get((x, y))
+        if z is None:
+            # Take the left variable if we can, otherwise the right one.
+            if isinstance(x, Var) and x not in used and (x == y or not x.occurs_check(y)):
+                z = x
+            elif isinstance(y, Var) and y not in used and not y.occurs_check(x):
+                z = y
             else:
-                s2[y] = x            # Note: we do *not* need to copy `s`.
-            return y
-
-        elif isinstance(x, Term) and isinstance(y, Term) and len(x) == len(y) and x.fn == y.fn:
-            return Term(*(traverse(a, b) for a, b in zip(x, y)))
-
-        else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
-            z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+                z = Var()
+            used.add(z)
+            table[x, y] = z
+            s1[z] = x
+            s2[z] = y
+        return z
 
     return traverse(t1, t2)
 
-- 
2.43.0


From 8bed36527b98d5c6c2b43c32e05e8af228732324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:27 +0000
Subject: [PATCH 03/51] fix: DisjointEstimate.add leaves overlapping entries
 behind when a merge grows the new entry

---
 dyna/term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index d10790b..0b968ac 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1007,10 +1007,13 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
+        i = len(self.xs) - 1
+        while i >= 0:
             if unifies(r, self.xs[i]):   # overlaps
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
+                i = len(self.xs)         # `r` has grown; it may overlap entries that we skipped.
+            i -= 1
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From 673842a24895086554123c9a59d7b451c33e5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:49 +0000
Subject: [PATCH 04/51] fix: rule lookup misses variable-headed rules for
 functors that are new to the program

---
 dyna/program.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index b4141f9..6631c4c 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -18,7 +18,7 @@ from dyna.rule import Rule, is_const
 from dyna.term import (
     fresh, Var, unify, snap, Term, unifies, term_vars, covers, gen_functor,
     is_ground, canonicalize, is_var, Product, flatten_op, FreshCache,
-    deref, join_f, NoDupsSet,
+    deref, join_f, NoDupsSet, null_ptr,
     Stream, ResultStream, Constant
 )
 from dyna.util import FrozenBag, tarjan, instance_cache, GroundingsPrinter
@@ -464,7 +464,7 @@ input/output declarations</summary>\
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+            self._cache_f2r[self._f2r_key(r.head)].append(i)
         self._invalidate_caches()
         return i
 
@@ -1377,19 +1377,23 @@ input/output declarations</summary>\
     # during transform search won't change the rules very much or even access
     # the index at all.
     def f2r(self, f):
+        if isinstance(f, Var): return range(len(self))
         if self._cache_f2r is None:
             # Rule indexing by head functor
-            syms = self.syms
             f2r = defaultdict(list)
             for i, r in enumerate(self):
-                if isinstance(r.head,  Term):
-                    f2r[r.head.fn].append(i)
-                else:
-                    # head is a variable
-                    assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
+                f2r[self._f2r_key(r.head)].append(i)
             self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+        ix = self._cache_f2r.get(f, [])
+        wild = self._cache_f2r.get(null_ptr)   # every functor matches the wild rules.
+        return sorted([*ix, *wild]) if wild else ix
+
+    @staticmethod
+    def _f2r_key(head):
+        "Key of `head` in the rule index: its functor, or a sentinel if it is a variable."
+        head = snap(head)
+        f = head.fn if isinstance(head, Term) else head
+        return null_ptr if isinstance(f, Var) else f
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From 7e008083f3adeb5eff30bd80a980d3b58011807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:28 +0000
Subject: [PATCH 05/51] fix: updating a fact that was written without a value
 raises ValueError

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 6631c4c..ae656e2 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From 075cd771be38205247ce21e22a1df62f26d8fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:52 +0000
Subject: [PATCH 06/51] fix: strings with quotes, backslashes or newlines and
 body booleans do not survive print and parse

---
 dyna/pretty.py | 8 +++++---
 dyna/syntax.py | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..727102c 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -166,9 +166,10 @@ class PrettyPrinter:
             return str(x).lower()   # booleans and null are lower case
 
         elif isinstance(x, str):
-            x = repr(x)    # should be a double-quoted string, unlike Python
-            x = f'"{x[1:-1]}"'   # TODO: need to redo escapes
-            return x
+            # escapes are undone by the parser (see `DynaTransformer.string`)
+            for c, e in [('\\', r'\\'), ('"', r'\"'), ('\n', r'\n'), ('\r', r'\r'), ('\t', r'\t')]:
+                x = x.replace(c, e)
+            return f'"{x}"'
 
         elif isinstance(x, Rule):
 
@@ -206,6 +207,7 @@ class PrettyPrinter:
 #                        elif hasattr(z, '_repr_svg_'):
 #                            return z._repr_svg_()
 #                        else:
+                        if isinstance(z, (bool, str)): z = self(z)
                         return Escape(self.color.render(self.color.builtin % (z,)))
 
                     return z
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..fba7365 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -1,3 +1,5 @@
+import re
+
 from lark.lark import Lark
 from lark.visitors import Transformer
 from lark.exceptions import LarkError
@@ -144,7 +146,10 @@ class DynaTransformer(Transformer):
 
     def string(self, x):
         [s] = x
-        return s[1:-1].replace('\\"', '"')   # remove outer quotes and escaped quotes
+        # remove outer quotes and undo escapes (unknown escapes are kept verbatim)
+        return re.sub(r'\\(.)', lambda m: self._escapes.get(m[1], m[0]), s[1:-1])
+
+    _escapes = {'"': '"', '\\': '\\', 'n': '\n', 'r': '\r', 't': '\t'}
 
     def float(self, x):
         [a] = x
-- 
2.43.0


From 6baf8d6c0fa76a8ceefd8a2d46ad5da16e3155f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:55 +0000
Subject: [PATCH 07/51] fix: operator terms lose their structure when printed
 and re-parsed

Operators of equal priority and associativity shared no grammar level, and the
printer dropped parentheses that arguments, list elements, nested comparisons,
unary operands and rule bodies require.
---
 dyna/pretty.py | 71 ++++++++++++++++++++++++++++++++++----------------
 dyna/syntax.py | 36 ++++++++++++++++---------
 2 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 727102c..0d61ec6 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -25,6 +25,8 @@ binops['\\'] = binops['\\\\']   # annoying patch
 
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 
+nullops = {str(f.op) for f in ops if isinstance(f, NullOp)}
+
 
 AGG = {'+=', '=', '->', 'max=', 'min=', 'set=', 'bag=', ':-', ':=', '*=', '&=',
        '|=', '?='}
@@ -41,8 +43,25 @@ def priority(x):
     return float('inf') if x is None else x.priority
 
 
-def assoc(x):
-    return None if x is None else x.assoc
+# Argument and list-element positions do not admit top-level operators that
+# bind no tighter than these (see `expr2` and `expr3` in the grammar).
+ARG, LIST, BODY = binops[','].priority, binops['|'].priority, binops['+='].priority
+
+
+def is_operator(x):
+    "is x printed as a nullary, prefix or infix operator?"
+    x = snap(x)
+    if isinstance(x, Rule): return True
+    if not isinstance(x, Term): return False
+    fn = snap(x.fn)
+    if not isinstance(fn, str) or fn == 'for': return False
+    return (fn in nullops, fn in unaryops, fn in binops)[x.arity] if x.arity <= 2 else False
+
+
+def same_level(y, x, assoc):
+    "do the infix operators of terms x and y associate with one another in direction `assoc`?"
+    f, g = binop(x), binop(y)
+    return g is not None and y.arity == 2 and f.priority == g.priority and f.assoc == g.assoc == assoc
 
 
 class parens:
@@ -218,7 +237,7 @@ class PrettyPrinter:
 
                 aggr = self.color.aggregator % '+='
 
-                return f'{pre}{h} {aggr} {self(B)}'
+                return f'{pre}{h} {aggr} {self(parens(B) if self.needs_parens(B, BODY) else B)}'
             else:
                 return f'{pre}{h}'
 
@@ -243,7 +262,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({self.pp_args(x.args)})'
         return f
 
     def pp_term(self, x):
@@ -251,7 +270,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
 
         if not isinstance(fn, str):
-            return f'{self(fn)}({",".join(self(y) for y in x.args)})'
+            return f'{self(fn)}({self.pp_args(x.args)})'
 
 #        elif isinstance(x, Rule):
 #            if x.body:
@@ -275,7 +294,7 @@ class PrettyPrinter:
                 [y] = x.args
 
                 # XXX: remove parens when precedence is clear.
-                if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
+                if is_operator(y) or isinstance(y, (int, float)):
                     return f'{fn}({self(y)})'
                 return f'{fn}{self(y)}'
 
@@ -318,7 +337,7 @@ class PrettyPrinter:
             '->': ' -> ',
         }.get(fn)
 
-        if (fn in binops) or (infix is not None):
+        if (fn in binops and fn != 'for') or (infix is not None):
             # The default display is spaces around the infix operator
             infix = infix or f' {fn} '
             [_, a, b] = x
@@ -341,27 +360,33 @@ class PrettyPrinter:
             # or right assoc by convention.
 
             A = self(a); B = self(b)
+            p = priority(binop(x))
 
-            if priority(binop(a)) <= priority(binop(x)):
-                if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
-                    pass
-                else:
-                    A = f'({A})'
+            if self.needs_parens(a, p) and not same_level(a, x, 'L'):
+                A = f'({A})'
 
-            if priority(binop(b)) <= priority(binop(x)):
-                if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
-                    pass
-                else:
-                    B = f'({B})'
+            if self.needs_parens(b, p) and not same_level(b, x, 'R'):
+                B = f'({B})'
+
+            if infix == ':' and B.startswith('-'): B = f'({B})'   # `:-` is an aggregator
 
             return f'{A}{infix}{B}'
 
+    def needs_parens(self, x, p):
+        "does x need parens where only operators tighter than `p` may appear?"
+        x = snap(x)
+        if isinstance(x, Rule): return bool(x.body) and p >= BODY
+        if not is_operator(x): return False
+        if x.arity == 0: return p > LIST   # nullary operator as an operand
+        return priority(binop(x)) <= p
+
+    def pp_args(self, args, p=ARG):
+        return ",".join(f'({self(a)})' if self.needs_parens(a, p) else self(a) for a in args)
+
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({self.pp_args(args)})'
 
     def pp_functor(self, x):
         y = str(x)
@@ -381,9 +406,9 @@ class PrettyPrinter:
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
+                return f'[{self.pp_args(xs, LIST)}]'
             elif isinstance(y, Term) and y.fargs[0] == '$cons':
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{self.pp_args(xs, LIST)}|{self.pp_args([y], LIST)}]'
diff --git a/dyna/syntax.py b/dyna/syntax.py
index fba7365..a34dffb 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -282,6 +282,7 @@ class Op:
         self.priority = priority
         self.evaluation = evaluation
         self.callback = callback
+        self.level = None
     def __repr__(self):
         return f'{self.__class__.__name__}({self.op})'
 
@@ -293,6 +294,7 @@ class BinOp(Op):
         self.assoc = assoc
         if callback is None: callback = 'binop'
         super().__init__(op=op, arity=2, priority=priority, evaluation=evaluation, callback=callback)
+        if assoc != N: self.level = (priority, assoc, callback)
 
     def render(self, OP, i):
         if self.assoc == L:   l, r = i, i-1
@@ -307,6 +309,7 @@ class UnaryOp(Op):
         self.position = position
         if callback is None: callback = 'unary_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
+        self.level = (priority, position, callback)
 
     def render(self, OP, i):
         if self.position == 'prefix':
@@ -325,6 +328,8 @@ class NullOp(Op):
 
 
 class ChainedCompare:
+    assoc = N     # nested comparisons require parens
+    level = None
     def __init__(self, priority):
         self.op = None
         self.priority = priority
@@ -342,28 +347,35 @@ def add_ops(ops):
                '>': 'GT',
                '<': 'LT'}
 
+    # Operators with the same priority and associativity (or position) share a level.
+    levels = []
+    for z in sorted(ops, key=lambda x: -x.priority):
+        if levels and z.level is not None and z.level == levels[-1][-1].level:
+            levels[-1].append(z)
+        else:
+            levels.append([z])
+
     G = []
     expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
+    for i, zs in enumerate(levels, start=1):
 
         # Figure out where these special positions are:
         #  - expr1: most general context
         #  - expr2: doesn't take the top-level comma as an operator (used in term and list)
         #  - expr3: list syntax: doesn't take the top-level comma and `|` has special meaning.
-        if z.op == '|': expr3 = i-1
-        if z.op == ',': expr2 = i-1
+        if zs[0].op == '|': expr3 = i-1
+        if zs[0].op == ',': expr2 = i-1
         expr1 = i
 
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
-            else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
-        else:
-            OP = None
+        OPs = []
+        for z in zs:
+            if z.op is None: continue
+            if z.op not in Sym2Lex:      # avoid lexer conflicts on '='
+                Sym2Lex[z.op] = f'OP{len(Sym2Lex)}'
+                G.append(f'{Sym2Lex[z.op]}: "{z.op}"')
+            OPs.append(Sym2Lex[z.op])
 
-        G.append(z.render(OP, i))
+        G.append(zs[0].render(f'({"|".join(OPs)})', i))
 
     G.extend([
         f'?expr1: p{expr1}',
-- 
2.43.0


From 09d25d36ca8c96ba987d0827cfb9953990526c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 08/51] fix: functors such as e0 or e5 are read as malformed
 floats

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index a34dffb..c03e22c 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -202,7 +202,7 @@ params: PARAMS expr1 EOR
 
 AGG.100000: ( /[+]=/ | /:-/ )
 
-FLOAT.10000000: /[\-+]?[0-9]*((\.[0-9]+(e[\-+]?[0-9]+)?)|(e[\-+]?[0-9]+))/    // 1e5 and 1.0 and -1.0e+5
+FLOAT.10000000: /[\-+]?([0-9]*\.[0-9]+(e[\-+]?[0-9]+)?|[0-9]+e[\-+]?[0-9]+)/    // 1e5 and 1.0 and -1.0e+5
 
 INT: /[\-+]?[0-9]+/
 
-- 
2.43.0


From a978f05935cb4de9fac2280091217d915ad6ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:53 +0000
Subject: [PATCH 09/51] fix: postfix operators swap operator and operand

---
 dyna/syntax.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index c03e22c..590c3cf 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -74,6 +74,10 @@ class DynaTransformer(Transformer):
         [op, a] = x
         return Term(str(op), a)
 
+    def postfix_op(self, x):
+        [a, op] = x
+        return Term(str(op), a)
+
     def noop(self, x):
         [x] = x
         return x
@@ -307,7 +311,7 @@ class UnaryOp(Op):
     def __init__(self, op, priority, position='prefix', callback=None, evaluation=None):
         assert position in {prefix, postfix}
         self.position = position
-        if callback is None: callback = 'unary_op'
+        if callback is None: callback = 'unary_op' if position == prefix else 'postfix_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
         self.level = (priority, position, callback)
 
-- 
2.43.0


From f20f1e3e9a4c9f209f299f63e48a539ea23446a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 10/51] fix: keywords and unusual functor names are printed
 without quotes

---
 dyna/pretty.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 0d61ec6..2815d86 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp, NullOp
+from dyna.syntax import parser, ops, ChainedCompare, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -25,6 +25,11 @@ binops['\\'] = binops['\\\\']   # annoying patch
 
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 
+# functors that need no quotes: the parser's `FUNCTOR1` apart from its keywords
+FUNCTOR = re.compile(re.search(r'^FUNCTOR1: /(.*)/$', parser.grammar, re.M)[1])
+
+RESERVED = {f.op for f in ops if f.op and FUNCTOR.fullmatch(f.op)} | {'true', 'false'}
+
 nullops = {str(f.op) for f in ops if isinstance(f, NullOp)}
 
 
@@ -390,13 +395,7 @@ class PrettyPrinter:
 
     def pp_functor(self, x):
         y = str(x)
-        # the pattern below should match the pattern for `FUNCTOR1` in the
-        # front-end parser.
-        #
-        # TODO: The patterm below is going to be perpetually out of date with
-        # the functor pattern in the grammar.  Figure out how to keep them in
-        # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        if not FUNCTOR.fullmatch(y) or y in RESERVED:
             y = f"'{y}'"
         return y
 
-- 
2.43.0


From 513db77ea5331fa6375033c87a12d9ab7d0149df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:43 +0000
Subject: [PATCH 11/51] fix: the printer's name for a duplicate variable can
 clash with another variable

---
 dyna/pretty.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 2815d86..4c5f0a4 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -125,6 +125,7 @@ class PrettyPrinter:
     def __init__(self, vs=None, color=True, roles=None, **kwargs):
         if vs is None: vs = {}
         self.vs = vs
+        self.used = {name for names in vs.values() for name in names.values()}
         self.kwargs = kwargs
         self.var_color = {}
         # `roles` maps id(subgoal) -> 'input'/'output' so the printer can color
@@ -176,13 +177,13 @@ class PrettyPrinter:
             # we have seen this name before
             # but is it actually the *same* variable?
             if id(x) not in self.vs[x.name]:   # has a rename
-                dups = len(self.vs[x.name])
-                if dups == 0:
-                    # first instance keeps the nice name
-                    self.vs[x.name][id(x)] = x.name
-                else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                # first instance keeps the nice name; later instances get an
+                # ugly auto-generated name
+                name, i = x.name, len(self.vs[x.name])
+                while name in self.used:
+                    name, i = f'${x.name}{i or 1}', (i or 1) + 1
+                self.used.add(name)
+                self.vs[x.name][id(x)] = name
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
-- 
2.43.0


From 46f3e8d0351782eb7bff128325b5b72a22003914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:56 +0000
Subject: [PATCH 12/51] fix: a prefix operator of a subgoal is dropped when the
 rule is parsed

---
 dyna/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index 0b968ac..08e5436 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -90,7 +90,7 @@ def flatten(x):
 def flatten_op(x, op):
     "Flatten the nested conjunctions."
     x = snap(x)
-    if isinstance(x, Term) and x.fn == op:
+    if isinstance(x, Term) and x.fn == op and x.arity > 1:
         for y in x.args:
             yield from flatten_op(y, op)
     else:
-- 
2.43.0


From cd7b503837c3360339fbf49e08c8cdea3aeec660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 13/51] fix: rules with a variable subgoal are never equal to
 their renamed copies

---
 dyna/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/rule.py b/dyna/rule.py
index 25d4cfc..70aa1de 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -12,7 +12,7 @@ def fn(x): return x.fn if isinstance(x, Term) else x
 #    return Term(x.fn, x.arity) if isinstance(x, Term) else Term("$const", x)
 def term_signature(x):
     # Need to wrap constants in term to use the right comparison operation...
-    return canonicalize(x) if isinstance(x, Term) else Term("$const", x)
+    return canonicalize(x if isinstance(x, Term) else Term("$const", x))
 
 
 def is_const(x):
-- 
2.43.0


From 56f209022c7ea20a8060506590a420553861cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 14/51] fix: inverse modes of abs, * and / divide by zero or
 invent solutions

---
 dyna/builtin.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..ba68933 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,6 +215,7 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
+                        if X < 0: return       # an absolute value is never negative
                         for y in {+X, -X}:
                             yield from unify(Y, y)
                         return
@@ -304,11 +305,11 @@ class Builtins:
                         if isnum(Y) and isnum(Z):
                             yield from unify(X, Y * Z)
                             return
-                        if isnum(X) and isnum(Y):
-                            yield from unify(Z, X / Y)
+                        if isnum(X) and isnum(Y) and (X != 0 or Y != 0):
+                            if Y != 0: yield from unify(Z, X / Y)
                             return
-                        if isnum(X) and isnum(Z):
-                            yield from unify(Y, X / Z)
+                        if isnum(X) and isnum(Z) and (X != 0 or Z != 0):
+                            if Z != 0: yield from unify(Y, X / Z)
                             return
 
                         # identity elements
@@ -352,7 +353,11 @@ class Builtins:
 
                 elif k.fn == '/':
                     # Just rewrites `X is Y / Z` ==> Y is X * Z =
-                    yield from self(Term('is', Y, Term('*', X, Z)))
+                    # (division by zero has no value, so Z=0 is never a solution)
+                    if isnum(Z) and Z == 0: return
+                    for _ in self(Term('is', Y, Term('*', X, Z))):
+                        if isnum(snap(Z)) and snap(Z) == 0: continue
+                        yield
                     return
 
                 elif k.fn == '-':
-- 
2.43.0


From 3061f7444785a861ef75194c0ce0c726a6fb1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:39 +0000
Subject: [PATCH 15/51] fix: comparisons inside 'is' run on nonground terms;
 string repetition with an unbound count is a TypeError

---
 dyna/builtin.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index ba68933..da2a89a 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -298,7 +298,7 @@ class Builtins:
                             return
                         # TODO: we can solve for K in some cases, e.g., `"aaaaa" is "a" * K`.
                         # Can't multiply string by anything other than an int.
-                        raise TypeError(q)
+                        if not isvar(Z): raise TypeError(q)
 
                     else:
                         # numeric cases
@@ -366,42 +366,42 @@ class Builtins:
                     return
 
                 elif k.fn == '>':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y > Z)
                         return
 
                 elif k.fn == '<':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y < Z)
                         return
 
                 elif k.fn == '>=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y >= Z)
                         return
 
                 elif k.fn == '<=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y <= Z)
                         return
 
                 elif k.fn == '==':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y == Z)
                         return
 
                 elif k.fn == '!=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y != Z)
                         return
 
                 elif k.fn == 'min':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, min(Y, Z))
                         return
 
                 elif k.fn == 'max':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, max(Y, Z))
                         return
 
-- 
2.43.0


From c32cd47414cc3a63c7192250a4449891342f8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:41 +0000
Subject: [PATCH 16/51] fix: quotient of two unknowns is answered with an alias
 that includes 0/0

---
 dyna/builtin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index da2a89a..3074247 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -355,6 +355,8 @@ class Builtins:
                     # Just rewrites `X is Y / Z` ==> Y is X * Z =
                     # (division by zero has no value, so Z=0 is never a solution)
                     if isnum(Z) and Z == 0: return
+                    if isvar(Z) and not (isnum(X) and isnum(Y)):
+                        raise InstFault(f'query `{q}` is not supported in this mode')
                     for _ in self(Term('is', Y, Term('*', X, Z))):
                         if isnum(snap(Z)) and snap(Z) == 0: continue
                         yield
-- 
2.43.0


From 089494b1b37a2c0d9ed29b72f572ff5e500efd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:48 +0000
Subject: [PATCH 17/51] fix: cached prune results survive a change of the
 input/output declarations

---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index ae656e2..a1ee2cf 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._caches.clear()    # prune*, ... depend on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._caches.clear()    # prune*, ... depend on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From c7cfdeabf62b76a9c079a099e6474543745d2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 18/51] fix: linearize crashes on a rule with a variable used
 as a factor

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index a1ee2cf..d40c4ae 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1852,6 +1852,7 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
+                    if self.is_builtin(y): continue
                     if unifies(x, y) or (nonground and isinstance(y, Term) and x.signature == y.signature):
                         tmps.add((i,k))
 
-- 
2.43.0


From 336f39ff539bcfeb92698f0a3a0d551bb6fff38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:55 +0000
Subject: [PATCH 19/51] fix: rule elimination confuses variables that rules
 share (and drops every copy of a shared rule object)

---
 dyna/program.py                    | 2 +-
 dyna/transform/rule_elimination.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index d40c4ae..c852215 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1535,7 +1535,7 @@ input/output declarations</summary>\
 
     def elim(self, s, **kwargs):
         #try:
-        return self.linearize(driver=self.rules[s].head).linear_rule_elimination(s, **kwargs)
+        return self.linearize(driver=fresh(self.rules[s].head)).linear_rule_elimination(s, **kwargs)
         #except AssertionError as e:
         #    import warnings
         #    warnings.warn(str(e))
diff --git a/dyna/transform/rule_elimination.py b/dyna/transform/rule_elimination.py
index 54271f2..8a9ddbd 100644
--- a/dyna/transform/rule_elimination.py
+++ b/dyna/transform/rule_elimination.py
@@ -35,7 +35,8 @@ class LinearRuleElimination(TransformedProgram):
     ):
 
         self.i = i
-        self.s = s = program.rules[i]
+        self.s = program.rules[i]
+        s = fresh(self.s)    # rename apart: rules of a transformed program may share variables
 
         # Below we check that we aren't eliminating rule that directly feeds into
         # an output node because the transform will alter its semantics.
@@ -47,8 +48,7 @@ class LinearRuleElimination(TransformedProgram):
 
         new_program = program.spawn()
 #        new_program = []
-        for _r in program:
-            r = fresh(_r) if _r is s else _r
+        for k, r in enumerate(program):
             count = 0
             for j, b in enumerate(r.body):
                 for _ in unify(s.head, b):
@@ -98,7 +98,7 @@ class LinearRuleElimination(TransformedProgram):
                 # sufficient to avoid issues.
                 assert False, f'call linearize before elim! {program}\n\n{program.linearize()}'
 
-            if _r is s: continue
+            if k == i: continue
             new_program.append(r)
 
         super().__init__(f'LinearRuleElimination({self.i})', program, new_program)
-- 
2.43.0


From 84c31b6dfbe4c793d7ddcc9a359d32bb4e62ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 20/51] fix: type analysis, pruning and abbreviation lose rules
 with a variable used as a factor

---
 dyna/analyze/abbreviate.py | 13 +++++++++----
 dyna/analyze/dead.py       |  7 ++++---
 dyna/analyze/types.py      |  5 +++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..57e70f8 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -6,7 +6,7 @@ from arsenal import colors
 
 from dyna import (
     Rule, PrettyPrinter, TransformedProgram, join_f, Term, term_vars, fresh,
-    Subst, snap
+    Subst, snap, is_var
 )
 
 
@@ -68,12 +68,12 @@ class Abbreviate(TransformedProgram):
                 pp = PrettyPrinter()
                 print(colors.render(f'\n{colors.render(colors.magenta % pp(r, color=False))}'))
 
-            for t_body in join_f(self.types.chart.lookup, *r.body):
+            for t_body in join_f(self.__lookup, *r.body):
 
                 # constraint closure for the body's type
                 frees = [Term('$free', v) for v in term_vars(r.head) - term_vars(r.body)]
                 # body constraints before closure
-                body_constraints = [b for t_b in t_body for b in body(t_b)]
+                body_constraints = [b for t_b in t_body if not is_var(t_b) for b in body(t_b)]
                 # body constraints after closure
                 body_closure = self.types.rewrites(Rule(r.head, *body_constraints, *frees), ALLOW_FREE_MERGE=True)
 
@@ -111,8 +111,13 @@ class Abbreviate(TransformedProgram):
             new_rule = Rule(new_rule.head, *new_rule.body, self.parent.Semiring.multiple(float('inf')))
         return new_rule
 
+    def __lookup(self, x):
+        # variables that are used as factors stand for their values (i.e., they are not items)
+        if is_var(x): yield x
+        else:         yield from self.types.chart.lookup(x)
+
     def __abbrev(self, t):
-        if self.is_const(t): return t
+        if self.is_const(t) or is_var(t): return t
         assert isinstance(t, Rule), t
         if self.parent.is_builtin(t.head): return t.head
         assert hasattr(t, 'i')
diff --git a/dyna/analyze/dead.py b/dyna/analyze/dead.py
index 4d44b22..d3293ba 100644
--- a/dyna/analyze/dead.py
+++ b/dyna/analyze/dead.py
@@ -3,7 +3,7 @@ Dead rule elimination
 """
 
 from dyna import TransformedProgram, Program, Rule
-from dyna.term import fresh, Product, DisjointEstimate
+from dyna.term import fresh, is_var, Product, DisjointEstimate
 from dyna.util.graphs import Hypergraph
 
 
@@ -182,14 +182,15 @@ def _prune_specialize(p, analysis):
     D = DisjointEstimate([r.head for r in analysis])
     S = Program([Rule(x) for x in D])
     # Note: the code below differs from `Program.instantiate` because the head can drive.
-    new = [fresh(r) for r in p for _ in S.join(r.head, *r.body)]
+    # Variables that are used as factors stand for their values, so they don't drive.
+    new = [fresh(r) for r in p for _ in S.join(r.head, *[y for y in r.body if not is_var(y)])]
     new = TransformedProgram('prune-specialize', p, new)
     return p if new == p else new
 
 
 def _prune_dead(p, analysis):
     # Note: differs from `Program.instantiate` as the head can drive.
-    new = [r for r in p if any(True for _ in analysis.join(r.head, *r.body))]
+    new = [r for r in p if any(True for _ in analysis.join(r.head, *[y for y in r.body if not is_var(y)]))]
     if len(p) == len(new):
         return p
     else:
diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index c88fa23..f4545a9 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -10,7 +10,7 @@ from arsenal import colors
 from itertools import combinations
 
 from dyna import (
-    pp as _pp, PrettyPrinter, Boolean, Rule, Program, TransformedProgram, term_vars, fresh, Term, same, unify, Subst, Var,
+    pp as _pp, PrettyPrinter, Boolean, Rule, Program, TransformedProgram, term_vars, fresh, Term, same, unify, Subst, Var, is_var,
     MostGeneralSet, snap
 )
 from dyna.analyze.rewrites import Rewrites
@@ -38,7 +38,8 @@ def add_free_constraints(r):
 
 def remove_constants(p, r):
     assert isinstance(r, Rule), r
-    return Rule(r.head, *[b for b in r.body if not p.is_const(b)])
+    # Note: a variable used as a factor stands for its value, so it is not an item.
+    return Rule(r.head, *[b for b in r.body if not p.is_const(b) and not is_var(b)])
 
 def to_type_program(p):
     q = TransformedProgram('booleanize', p, [
-- 
2.43.0


From a2a7a696a8da9188a1e6b395b68dcf1f1279d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 21/51] fix: pruning does not terminate when a leftover
 $free(s(X)) makes a type incomparable to its copies

---
 dyna/analyze/rewrites.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..fbe8721 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -77,6 +77,11 @@ class Rewrites:
 
         drop = set(cp.checked) if drop_checked else set()
 
+        # Without insts, the binding states are not tracked (e.g., a leftover
+        # `$free(s(X))` constraint would make this type incomparable to its copies).
+        if not USE_INSTS:
+            drop.update(x for x in chart if x.fn in {'$bound', '$free'})
+
         # The issue we have with intersection (i.e., the reason why we have
         # ALLOW_FREE_MERGE=False) is that we actually do truly have intersection (subsumption
         # actually) when we have a free variable.  It really is the case that f(X:free) is a
-- 
2.43.0


From d8bf7a917406214009756dc21a446abd7336a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:11 +0000
Subject: [PATCH 22/51] fix: type analysis does not terminate on constraints
 that grow under the head

---
 dyna/analyze/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index f4545a9..863a343 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -210,9 +210,11 @@ class TypeAnalyzer:
         if self.DEBUG > 0 and not same(r.head, h):
             print(colors.red % f'[truncate]     {r.head}')
             print(colors.red % f'[truncate]  -> {h}')
-        # Drop any constraint that mentions local variables.
+        # Drop any constraint that mentions local variables or is too tall (an
+        # unbounded family of constraints on the head would not terminate).
         head_vars = term_vars(h)
-        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)})
+        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
+                      and same(truncate_term(x, self.max_depth), x)})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From 106e6272476187484334a67de7b8627d6ec23e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:30 +0000
Subject: [PATCH 23/51] fix: prune_fast crashes when an input or output
 declaration is a builtin or a variable

---
 dyna/analyze/dead.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/dead.py b/dyna/analyze/dead.py
index d3293ba..76034cc 100644
--- a/dyna/analyze/dead.py
+++ b/dyna/analyze/dead.py
@@ -118,16 +118,16 @@ class ProgramCoarsening:
         # coarse-grained hypergraph
         g = Hypergraph()
         for x in p.inputs.just_heads():
-            for [i] in self.f(x):
+            for i in self.nodes.find_all(x):    # (x may be a variable or a builtin, e.g., `$bound(X)`)
                 g.add_edge(i, None)
         for r in p:
-            for [xx] in self.f(r.head):
+            for xx in self.nodes.find_all(r.head):
                 for yy in self.f(*r.body):
                     g.add_edge(xx, None, *yy)
 
         # the useful coarse-grained items
-        inputs = {i for x in p.inputs.just_heads() for [i] in self.f(x)}
-        outputs = {i for x in p.outputs.just_heads() for [i] in self.f(x)}
+        inputs = {i for x in p.inputs.just_heads() for i in self.nodes.find_all(x)}
+        outputs = {i for x in p.outputs.just_heads() for i in self.nodes.find_all(x)}
         self._useful = g.reachability(inputs, outputs)
 
     def useful(self, x):
-- 
2.43.0


From 1705347749deeffc423d622bc65f0e4032ef31a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:30 +0000
Subject: [PATCH 24/51] fix: types lose the binding state of variables inside
 terms, and intersection of types is asymmetric

---
 dyna/analyze/rewrites.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index fbe8721..cc1ae51 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -52,6 +52,7 @@ class Rewrites:
             # helper.  I think we can use ordinary recursion
             # (_propagation_hook_bound -> _propagation_hook_bound).
 
+            if is_var(x): cp.update(Term('$bound', x))
             if not isinstance(x, Term): return
             if x.fn != '$bound': cp.update(Term('$bound', x))
             for y in x.args: rec_bound(y)
@@ -59,6 +60,13 @@ class Rewrites:
         if isinstance(driver, Term) and driver.fn == '$bound':
             rec_bound(driver)
 
+        # The variables within a term that instantiates a free variable are free
+        # (unless they are bound by something else).
+        if isinstance(driver, Term) and driver.fn == '$free':
+            [x] = driver.args
+            if isinstance(x, Term):
+                for y in term_vars(x): cp.update(Term('$free', y))
+
     def __repr__(self):
         return f'{self.__class__.__name__} {Program(self.cp.rules)}'
 
@@ -118,8 +126,9 @@ class Rewrites:
 
                 if free_vars & got_bound: return
 
-                # We have a problem if there is more than 1 variable equal to `X`.
-                if any(sum((X == A or X == B) for [_,A,B] in cp.bindings) > 1 for X in free_vars):
+                # We have a problem if there is more than 1 variable equal to `X`
+                # (directly or by transitivity).
+                if any(len(self._equated(X, cp.bindings)) > 2 for X in free_vars):
                     return
 
                 if not all((y.fn == '$free' or X not in term_vars(y)) for y in chart for X in free_vars):
@@ -127,6 +136,15 @@ class Rewrites:
 
         return Rule(subst(R.head), *(chart - drop))
 
+    @staticmethod
+    def _equated(X, bindings):
+        "Variables that are equated with `X` by `bindings` (including `X`)"
+        xs = {X}
+        while True:
+            new = {V for [_,A,B] in bindings if A in xs or B in xs for V in (A,B) if is_var(V)}
+            if new <= xs: return xs
+            xs |= new
+
     def intersect(self, r, s, ALLOW_FREE_MERGE=False):
         "Compute the intersection of simple types `r` and `s`."
         s = fresh(s)
-- 
2.43.0


From 5e284c1b4231c854a2125656c13d4c042bba02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:30 +0000
Subject: [PATCH 25/51] fix: abbreviation sends f(X,X) to the type of f(X,Y),
 and crashes on constants of some semirings

---
 dyna/analyze/abbreviate.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 57e70f8..958cbcc 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -6,7 +6,7 @@ from arsenal import colors
 
 from dyna import (
     Rule, PrettyPrinter, TransformedProgram, join_f, Term, term_vars, fresh,
-    Subst, snap, is_var
+    Subst, snap, is_var, Product
 )
 
 
@@ -26,6 +26,14 @@ def freebies(r):
     }
 
 
+def distinct_frees(s, t):
+    "Does unifying the heads of `s` and `t` keep the $free-typed variables of each of them apart?"
+    subst = Subst().mgu(s.head, t.head)
+    return subst is not Subst.FAIL and all(
+        len({subst(v) for v in freebies(x)}) == len(freebies(x)) for x in (s, t)
+    )
+
+
 class Abbreviate(TransformedProgram):
 
     def __init__(self, program, types, debug=False):
@@ -79,8 +87,16 @@ class Abbreviate(TransformedProgram):
 
                 if body_closure is None: continue
 
+                # Head types that the rule can contribute to.  Note: this must be checked before
+                # `lookup` below equates variables, otherwise, we can't tell whether distinct
+                # free variables were merged (e.g., f(X,X) is not an item of type f(X:free,Y:free)).
+                head_type = Rule(r.head, *body_closure.body)
+                matches = [i for i, t in enumerate(self.types.chart) if distinct_frees(fresh(t), head_type)]
+
                 for tt in self.types.chart.lookup(r.head):
 
+                    if tt.i not in matches: continue
+
                     t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=False)
                     #t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=True)
 
@@ -88,7 +104,9 @@ class Abbreviate(TransformedProgram):
                     t_head.i = tt.i
 
                     # we are required to check the head constraints that aren't guaranteed by the body's type.
-                    head_constraints = set(t_head.body) - set(body_closure.body)
+                    # (the head's type may have instantiated variables of the body's type)
+                    closure = self.types.rewrites(Rule(r.head, *body_closure.body), ALLOW_FREE_MERGE=True)
+                    head_constraints = set(t_head.body) - set(closure.body)
 
                     new_rule = Rule(
                         self.__abbrev(t_head),
@@ -113,8 +131,8 @@ class Abbreviate(TransformedProgram):
 
     def __lookup(self, x):
         # variables that are used as factors stand for their values (i.e., they are not items)
-        if is_var(x): yield x
-        else:         yield from self.types.chart.lookup(x)
+        if self.parent.is_const(x) or is_var(x): yield Product([x])
+        else:                                    yield from self.types.chart.lookup(x)
 
     def __abbrev(self, t):
         if self.is_const(t) or is_var(t): return t
-- 
2.43.0


From c7af71a03e74deac03b9858df860b4363d3b9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:25 +0000
Subject: [PATCH 26/51] fix: snap_unifications, run_builtins and
 normalize_unification2 crash on semiring weights and on variable factors

---
 dyna/program.py | 6 ++++--
 dyna/term.py    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index c852215..0769585 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1503,13 +1503,13 @@ input/output declarations</summary>\
             yield Product()
             return
         else:
-            if self.is_builtin(ys[0]):
+            if self.is_builtin(ys[0]) and not is_var(ys[0]):   # (a variable factor is not evaluated until it is bound)
                 for v in self.lookup_vals(ys[0]):
                     for vs in self._run_builtins(ys[1:]):
                         yield v * vs
             else:
                 for vs in self._run_builtins(ys[1:]):
-                    yield ys[0] * vs
+                    yield Product([ys[0], *vs])
 
     #def rewrites(self, rewrites):
     #    "Apply rewrites to the bodies of all rules in this program."
@@ -1932,6 +1932,8 @@ input/output declarations</summary>\
             """A body subgoal is in normal form if it is either a flat call
             `pred(V1, ..., Vn)` (all args are Vars) or a shallow unification
             `V = T(V1, ..., Vn)` / `V = V'` / `V = constant`."""
+            if isinstance(y, Var):   # a variable used as a factor
+                return True
             if not isinstance(y, Term):
                 return False
             if y.fn == '=' and len(y.args) == 2:
diff --git a/dyna/term.py b/dyna/term.py
index 08e5436..988e8cf 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -213,7 +213,7 @@ class Product(tuple):
                 yield from self[1:].snap_unifications()
         else:
             for ys in self[1:].snap_unifications():
-                yield x0 * ys
+                yield Product([x0, *ys])
 
     def covers(self, ys, s=Ellipsis):
         """
-- 
2.43.0


From 5af246aef1dfcf9dad3fd090358e770ff0df5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:06 +0000
Subject: [PATCH 27/51] fix: derivation enumeration crashes on duplicate rules,
 other semirings and (agenda) recursive rules

---
 dyna/derivations.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..8894aae 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -11,6 +11,7 @@ from dyna.term import covers, fresh, Product, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
 from dyna import PrettyPrinter
+from dyna.syntax import term
 
 
 class Derivation(Rule):
@@ -59,7 +60,7 @@ class Derivation(Rule):
             if len(d) == 0:
                 return Product()
             else:
-                return Derivation.value(d[0]) * Derivation.value(d[1:])
+                return Product() * Derivation.value(d[0]) * Derivation.value(d[1:])
         elif is_const(d):
             return d
         else:
@@ -396,7 +397,8 @@ def agenda(p):
 
         new.update(driver, value)
 
-        for i, r in enumerate(p):
+        for i, _r in enumerate(p):
+            r = fresh(_r)   # the program's own rule must stay unbound; `Derivation` compares against it
             for k in range(len(r.body)):
                 for _ in unify(driver, r.body[k]):
 
@@ -417,12 +419,18 @@ def peel(ds):
     return dds
 
 
+def lookup(chart, x):
+    "Derivations of `x` in `chart` (unlike `user_lookup`, equal derivations of duplicate rules are not merged)."
+    if isinstance(x, str): x = term(x)
+    return Derivations(peel([fresh(r) for r in chart.lookup(x)]))
+
+
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return lookup(naive(p, T=T), x)
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return lookup(seminaive(p, T=T, verbose=verbose), x)
 
 
 def sld(p, x):
@@ -438,7 +446,7 @@ def sld(p, x):
         else:
             for d1 in sld(p, x[0]):
                 for d2 in sld(p, x[1:]):
-                    yield d1 * d2
+                    yield Product([d1, *d2])
         return
     if p.is_const(x):
         yield x
-- 
2.43.0


From 7ebe800a0ad9a3f6bf342ef3f96b87182460c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 28/51] fix: derivation mappings of unfold and fold mix up
 subgoals and programs

reorder_subgoals applied the inverse permutation; mapping back through unfold
and fold guessed the position of subgoals by matching (ambiguous for equal
instances); Program.Transform confused equal and identical programs.
---
 dyna/derivations.py      | 33 ++++++----------------
 dyna/program.py          | 30 ++++++++++----------
 dyna/transform/fold.py   | 60 ++++++++++++++++------------------------
 dyna/transform/unfold.py | 48 ++++++++++++++++----------------
 4 files changed, 73 insertions(+), 98 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 8894aae..da6a9fa 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -7,7 +7,7 @@ from arsenal import colors, iterview
 from IPython.display import HTML
 from io import StringIO
 
-from dyna.term import covers, fresh, Product, unify
+from dyna.term import covers, fresh, Product, Subst, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
 from dyna import PrettyPrinter
@@ -466,34 +466,19 @@ def reorder_subgoals(D, r, R):
     `D`'s instantiated top rule)
     """
 
-    possible = r.folds_by(R)
-    if not possible:    # pragma: no cover
-        msg = (f"""
+    # Note: `align` maps positions in `r` to positions in `R`
+    for (_, align, remaining) in R.body.covers(r.body, Subst().cover(R.head, r.head)):
+        if not remaining:
+            return [D.body[k] for k in sorted(align, key=align.get)]
+
+    if Derivation.SAFE:
+        raise AssertionError(f"""
         failed to re-order subgoal order:
         want: {R}
         have: {r}
         """)
 
-        if Derivation.SAFE:
-            raise AssertionError(msg)
-        else:
-            return D.body
-
-    [t] = possible
-
-    assert not t.remaining, [R, r, t]  # we shouldn't have any more fuzzy matches
-    # permute subgoals to match the rule
-    bs = [D.body[j] for i,j in sorted(t.align.items())]
-    # check that the permutation did the trick
-    if not covers(R, Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])):  # pragma: no cover
-        if Derivation.SAFE:
-            raise AssertionError(f"""
-            failed to re-order subgoals:
-            want: {R}
-            have: {r}
-            ====> {Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])}
-            """)
-    return bs
+    return D.body
 
 
 #from contextlib import contextmanager
diff --git a/dyna/program.py b/dyna/program.py
index 0769585..a180032 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2171,11 +2171,6 @@ input/output declarations</summary>\
 
         assert target.root == source.root
 
-        # We can find a path for source to target by going through their common root node
-        # (which exists by assumption).
-        if target not in set(source.transforms()) and source not in set(target.transforms()):
-            return source.root.Transform(source.Transform(d, source.root), target)
-
         if source is target:   # exactly the same program
             return d
 
@@ -2189,17 +2184,24 @@ input/output declarations</summary>\
                 *[source.Transform(y, target) for y in d.body]
             )
 
-        elif source in set(target.transforms()):
-            if source == target.parent:
-                return target.transform(d)
-            else:
-                return target.parent.Transform(source.Transform(d, target.parent), target)
+        elif source is target.parent:
+            return target.transform(d)
+
+        elif target is source.parent:
+            return source.untransform(d)
+
+        elif any(source is p for p in target.transforms()):
+            return target.parent.Transform(source.Transform(d, target.parent), target)
+
+        elif any(target is p for p in source.transforms()):
+            return source.parent.Transform(source.Transform(d, source.parent), target)
 
         else:
-            if source.parent == target:
-                return source.untransform(d)
-            else:
-                return source.parent.Transform(source.Transform(d, source.parent), target)
+            # We can find a path for source to target by going through their common root node
+            # (which exists by assumption).
+            d = source.Transform(d, source.root)
+            d = source.root.Transform(d, target.root)
+            return target.root.Transform(d, target)
 
 
 class TransformedProgram(Program):
diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index f31d010..138b278 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -100,48 +100,36 @@ class Fold(TransformedProgram):
 
         return (def2par, bookkeeping)
 
+    @cached_property
+    def __undo2par(self):
+        "Alignment of the rules and subgoals of `self.undo` to those of `self.parent`."
+        alignment = {}
+        for i, k in self.undo.align(self.parent):
+            x, y = self.undo.rules[i], self.parent.rules[k]
+            # Note: `subgoals` maps positions in `y` to positions in `x`
+            (_, subgoals, _) = next(x.body.covers(y.body, Subst().cover(x.head, y.head)))
+            alignment[i] = (k, subgoals)
+        return alignment
+
     def transform(self, d):
+        # implementation shortcut: use the undo (unfold) program's derivation mapping
+        par2undo = {k: (i, subgoals) for i, (k, subgoals) in self.__undo2par.items()}
         def node(n):
-            if n.i not in self.S:              # top rule was copied to new program
-                assert n.p == self.parent
-                I = self.rules.index(n.R)   # the index of the copied rule in the new program
-                return self.d(I)(n.head, *self.transform(n.body))
-            # rules that were replaced by the fold
             assert n.p == self.parent
-
-            if not self.partially_safe:
-                return self.rev.Transform(self.Transform(n, self.rev), self.rev.undo)
-
-            # We have recorded that the top rule P of this derivation maps
-            # [via par2def] to a defining rule D.
-            def_rule_ix = self.par2def[n.i]
-            def_rule = self.defs.rules[def_rule_ix]
-
-            # Use our recorded alignment of P's subgoals to D's subgoals
-            bookkeeping = self.bookkeeping[n.i]
-
-            # Note: Splitting uses some guess work to determined left vs. right
-            d_left = n.body[[i for i in bookkeeping.remaining if i <= self.j]]
-            d_middle = n.body[list(sorted(bookkeeping.align))]
-            d_right = n.body[[i for i in bookkeeping.remaining if i > self.j]]
-
-            # determine the unique substitution that makes the body of the
-            # derivation match the body of def_rule
-            θ = Subst()
-            for i, j in bookkeeping.align.items():
-                θ.cover(def_rule.body[j], n.r.body[i])
-
-            # The middle is where all the action happens
-            d_middle_new = self.defs.Transform(self.defs.d(def_rule_ix)(
-                θ(def_rule.head), *self.Transform(d_middle, self.defs)
-            ), self.parent)
-
-            return self.d(self.i)(n.head, *self.transform(d_left * d_middle_new * d_right))
-        return Derivation.map(d, node)
+            (i, subgoals) = par2undo[n.i]
+            return self.undo.d(i)(n.head, *Derivation.map(
+                [n.body[k] for k in sorted(subgoals, key=subgoals.get)], node
+            ))
+        return self.undo.untransform(Derivation.map(d, node))
 
     def untransform(self, d):
         # implementation shortcut: use the undo (unfold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        def node(n):
+            (k, subgoals) = self.__undo2par[n.i]
+            return self.parent.d(k)(n.head, *Derivation.map(
+                [n.body[subgoals[j]] for j in sorted(subgoals)], node
+            ))
+        return Derivation.map(self.undo.transform(d), node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) fold. `M` is the Measure context."
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 76c2baa..ede0f16 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -1,5 +1,5 @@
 from dyna import (
-    fresh, term_vars, TransformedProgram, Rule, Derivation, Product, Constant
+    fresh, term_vars, TransformedProgram, Rule, Derivation, Product, Constant, Subst
 )
 from functools import cached_property
 
@@ -94,30 +94,30 @@ class Unfold(TransformedProgram):
             return self.d(I)(n.head, *self.transform(n.body))
         return Derivation.map(d, node)
 
-#    def _untransform(self, d):
-#        rule = d.__rule__
-#        body = d.body
-#        assert d.p == self
-#        if rule in {self[i] for i in self.new2def}:  # rules that replaced by the unfold
-#            tmp = self.defs[self.new2def[d.i]]
-#            # all of these folds give the same new rule (self.r)
-#            [r] = d.r.folds_by(tmp)
-#            s = self.defs.d(self.new2def[d.i])(
-#                tmp.head/r.subst,
-#                *body[sorted(r.align)].transform(self.defs)
-#            )
-#            left = body[[i for i in r.remaining if i <= self.j]]
-#            right = body[[i for i in r.remaining if i > self.j]]
-#            body = left * s * right
-#            rule = self.r
-#            I = self.i
-#        else:
-#            I = self.parent.rules.index(rule)
-#        return self.parent.d(I)(d.head, *body.transform(self.parent))
-
     def untransform(self, d):
-        # implementation shortcut: use the undo (fold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        def node(n):
+            assert n.p == self
+            body = self.untransform(n.body)
+            if n.i not in self.new2def:   # the copied rules
+                I = self.parent.rules.index(n.R)
+                return self.parent.d(I)(n.head, *body)
+            # the unfolded rule; recover the subgoal that was replaced by the
+            # body of one of its definitions.
+            def_rule_ix = self.new2def[n.i]
+            def_rule = self.defs.rules[def_rule_ix]
+            left, rest = body[:self.j], body[self.j:]
+            middle, right = rest[:len(def_rule.body)], rest[len(def_rule.body):]
+            right = right[:len(self.r.body) - self.j - 1]
+            θ = Subst()
+            for x, y in zip(def_rule.body, n.r.body[self.j:]):
+                θ.cover(x, y)
+            subgoal = self.defs.d(def_rule_ix)(
+                θ(def_rule.head), *self.parent.Transform(middle, self.defs)
+            )
+            return self.parent.d(self.i)(
+                n.head, *left, self.defs.Transform(subgoal, self.parent), *right
+            )
+        return Derivation.map(d, node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) unfold. `M` is the Measure context."
-- 
2.43.0


From d9be73b6a233155f25a6c98fe164b2db9720ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 29/51] fix: safety measure accepts folding or unfolding by
 definitions the program does not share

---
 dyna/transform/fold.py    |  2 +-
 dyna/transform/measure.py | 19 ++++++++++++++-----
 dyna/transform/unfold.py  |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index 138b278..1165e4b 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -152,7 +152,7 @@ class Fold(TransformedProgram):
         # cannot verify against parent's existing definitions. Return an
         # unsafe measure rather than raising, so search/filter pipelines
         # using `m.safe` reject these candidates cleanly.
-        if M._freshness_violations(self.parent, self.defs):
+        if M._freshness_violations(self.parent, self.defs, self.r.body[self.j]):
             return M.zero_measure(self)
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
diff --git a/dyna/transform/measure.py b/dyna/transform/measure.py
index 0ab4fba..23c7981 100644
--- a/dyna/transform/measure.py
+++ b/dyna/transform/measure.py
@@ -168,7 +168,7 @@ class Measure:
 #        safe = list(m_parent._safe)
 #        return measure_safety(m_new, new, safe)
 
-    def _freshness_violations(self, parent, defs):
+    def _freshness_violations(self, parent, defs, subgoal):
         """For fold/unfold safety: every Define operation in `defs`'s lineage
         must also appear in `parent`'s lineage. Otherwise `defs` is carrying
         a rule (or rules) that `parent` never agreed to — a "sibling Define"
@@ -176,7 +176,9 @@ class Measure:
         the algebra never checks for consistency with `parent`'s definitions.
 
         For each foreign Define in `defs`'s lineage, we report a violation
-        when any of its new rule heads unifies with any head in `parent`.
+        when any of its new rule heads unifies with any head in `parent`, or
+        with the `subgoal` being folded/unfolded (as `parent` doesn't define it).
+        Similarly, `defs` must not lack a definition of the `subgoal` that `parent` has.
 
         Returns the list of (defs_rule, parent_head) pairs that violate..
         """
@@ -191,10 +193,17 @@ class Measure:
             # rules are foreign to parent. Flag any whose head clashes.
             for idx in stage._new_ix:
                 d_rule = stage.rules[idx]
-                for p_rule in parent.rules:
-                    if unifies(fresh(d_rule.head), fresh(p_rule.head)):
-                        violations.append((d_rule, p_rule.head))
+                for p_head in [p_rule.head for p_rule in parent.rules] + [subgoal]:
+                    if unifies(fresh(d_rule.head), fresh(p_head)):
+                        violations.append((d_rule, p_head))
                         break
+        defs_stage_ids = {id(s) for s in defs.lineage()}
+        for stage in parent.lineage():
+            if isinstance(stage, Define) and id(stage) not in defs_stage_ids:
+                for idx in stage._new_ix:
+                    d_rule = stage.rules[idx]
+                    if unifies(fresh(d_rule.head), fresh(subgoal)):
+                        violations.append((d_rule, subgoal))
         return violations
 
 # This is a crude estimator of the smallest derivation measure - it's just
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index ede0f16..6eca062 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -130,7 +130,7 @@ class Unfold(TransformedProgram):
         )
         # Freshness precondition (returns unsafe measure rather than raising;
         # see Fold.compute_measure for rationale).
-        if M._freshness_violations(self.parent, self.defs):
+        if M._freshness_violations(self.parent, self.defs, self.r.body[self.j]):
             return M.zero_measure(self)
 
         m_new = [None]*len(self)
-- 
2.43.0


From 80219938a3f442327026c0e9282cf48f4e328887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 30/51] fix: search crashes on unfolded built-ins, reversible
 folds and eliminations that need linearizing by the driver

---
 dyna/program.py          | 3 ++-
 dyna/transform/fold.py   | 3 ++-
 dyna/transform/unfold.py | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index a180032..0837892 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1853,7 +1853,8 @@ input/output declarations</summary>\
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
                     if self.is_builtin(y): continue
-                    if unifies(x, y) or (nonground and isinstance(y, Term) and x.signature == y.signature):
+                    if unifies(x, y) or (nonground and isinstance(y, Term) and x.signature == y.signature) \
+                       or (driver is not None and unifies(y, driver)):
                         tmps.add((i,k))
 
         if not tmps:
diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index 1165e4b..ca96cd9 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -133,7 +133,8 @@ class Fold(TransformedProgram):
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) fold. `M` is the Measure context."
-        assert self.partially_safe
+        if not self.partially_safe:
+            return M.zero_measure(self)
         # Common-ancestor precondition. The fold's rule-measure relations only
         # make sense if `parent` and `defs` descend from the same root program
         # (so their measure variables were allocated against a shared rule-index
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 6eca062..09bf742 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -136,9 +136,11 @@ class Unfold(TransformedProgram):
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
 
+        def m_def(D): return m_defs.m[D] if D is not None else M.Interval(0, 0)   # None for builtins
+
         for N, r in enumerate(self):
             if N in self.new2def:
-                m_new[N] = m_parent.m[self.i] + m_defs.m[self.new2def[N]]
+                m_new[N] = m_parent.m[self.i] + m_def(self.new2def[N])
             else:
                 m_new[N] = m_parent.m[self.parent.rules.index(r)]
 
@@ -149,7 +151,7 @@ class Unfold(TransformedProgram):
             # don't count the size of the subgoal that we replaced in the unfold action
             extra = M.min_size(self.parent.rules[P].body[:self.j]) + M.min_size(self.parent.rules[P].body[self.j+1:])
             safe.append(
-                    (m_parent.m[P] + m_defs.m[D]).lo + extra > 0
+                    (m_parent.m[P] + m_def(D)).lo + extra > 0
             )
         return M.safety(m_new, self, safe)
 
-- 
2.43.0


From c204c68ef2d4853bde28e6bc825b093e98d13dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 31/51] fix: coverage of constrained types depends on which of
 several equal variables is kept

---
 dyna/analyze/rewrites.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index cc1ae51..c4c4988 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -196,7 +196,13 @@ class Rewrites:
         if R is None: return False
         if T is None: return False
 
-        return S.head == T.head and set(S.body) >= set(T.body)
+        # Note: propagation may have picked other representatives for the variables
+        # that it equated, so we compare up to renaming of the head's variables.
+        rename = Subst({v: fresh(v) for v in term_vars(T.head)})
+        head, body = rename(T.head), rename(T.body)
+        rename = Subst().cover(head, S.head)
+        return (rename is not Subst.FAIL and rename.is_non_specializing()
+                and set(S.body) >= set(rename(body)))
 
     def same(self, r, s):
         return self.covers(r, s) and self.covers(s, r)  # pylint: disable=W1114
-- 
2.43.0


From 0068f0644c51962a0400672b0e8ac6a611d5d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 32/51] fix: propagation takes equalities one at a time, so
 satisfiable sets fail and cyclic ones crash

---
 dyna/propagate.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..696408d 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -3,7 +3,7 @@ Constraint propagation
 """
 from arsenal import colors
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL
+from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL, term_vars
 from dyna.program import Program
 from dyna.builtin import Builtins
 
@@ -68,6 +68,7 @@ class ConstraintPropagation:
         self.chart = None
         self.agenda = None
         self.bindings = None
+        self.solution = None
         self.checked = None
         self.propagation_hooks = list(propagation_hooks)
 
@@ -146,7 +147,7 @@ class ConstraintPropagation:
                     assert count == 0, 'only semidet constraints should run'
                     count += 1
                     subst1 = Subst().mgu(fresh(q0), q)
-                    yield subst1
+                    yield Subst({v: subst1(v) for v in term_vars(q) if v in subst1})
                 if count == 0:
                     yield None
             else:
@@ -171,6 +172,7 @@ class ConstraintPropagation:
         self.chart = chart = Chart()
         self.agenda = agenda = set()
         self.bindings = []
+        self.solution = Subst()
         self.checked = set()
 
         update = self.update
@@ -209,22 +211,27 @@ class ConstraintPropagation:
             if isinstance(driver, Term) and driver.fn == '=':
                 X,Y = driver.args
 
-                # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                # combine the equality with the earlier ones (this decomposes
+                # terms and checks for a contradiction)
+                solution = self.solution.copy().mgu(X, Y)
+                if solution is Subst.FAIL: return
+                solved = [V for V in solution if V not in self.solution]
+                self.solution = solution
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
                 self.checked.add(driver)
 
-                # eagerly replace all the instances of the variable with its
-                # value (in both the chart and agenda)
-                if X != Y:
+                for V in solved:
+                    # eagerly replace all the instances of the variable with its
+                    # value (in both the chart and agenda)
                     for x in list(self.chart):
                         if isinstance(x, Term) and x.fn != '=':
-                            self.update(replace_in_expr(x, X, Y))
-                            self.update(replace_in_expr(x, Y, X))
+                            self.update(replace_in_expr(x, V, solution[V]))
+                            self.update(replace_in_expr(x, solution[V], V))
 
-                self.bindings.append(driver)  # keep a record of the substitution
+                    # keep a record of the substitution
+                    self.bindings.append(Term('=', V, solution[V]))
 
                 # If there was a change (i.e., a variable is more instantiated),
                 # we might want to try re-evaluating pending constraint that
-- 
2.43.0


From 4a132abb8861783a7184d63fcd0bb068bc580106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 33/51] fix: list constraints are used to check themselves, so
 coverage ignores them

---
 dyna/propagate.py | 74 ++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 696408d..de84dd9 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -91,49 +91,6 @@ class ConstraintPropagation:
         if not isinstance(q, Term):
             yield Ellipsis
 
-        # TODO: need a smarter way to specify which user constraints are checkable
-        elif q.fn == 'ks' or q.fn == 'ws':
-            # Below, we try querying the main program (if one is provided).  In
-            # the event that <= 1 results are found, we can use them during
-            # propagation---just like built-ins constraints!
-
-            program = Program("""
-            ks([]).
-            ks([K|Ks]) :- k(K), ks(Ks).
-
-            ws([]).
-            ws([K|Ks]) :- w(K), ws(Ks).
-
-            """)
-
-            def query(q, subst):
-                if subst is None: return
-                if isinstance(q, (tuple, list)):
-                    if len(q) == 0:
-                        yield subst.copy()
-                    else:
-                        for subst1 in query(q[0], subst.copy()):
-                            yield from query(q[1:], subst1)
-                    return
-                if q in self.chart:
-                    yield subst
-                    return
-                for r in program:
-                    r = fresh(r)
-                    s = subst.copy().mgu(r.head, q)
-                    if s is Subst.FAIL: continue
-                    if s(r.head) == q:
-                        yield from query(s(r.body), s)
-
-            results = list(query(q, {}))
-            if len(results) == 0:
-                yield None
-            elif len(results) == 1:
-                yield results[0]
-            else:
-                # too many results: must skip; semi-det only
-                yield Ellipsis
-
         elif q.fn in {'<','>','<=','>='}:    # XXX: fix this hardcoding
             yield from self.check(Term('is', True, q))
 
@@ -156,6 +113,31 @@ class ConstraintPropagation:
         else:
             yield Ellipsis
 
+    # TODO: need a smarter way to specify which user constraints are checkable
+    list_rules = Program("""
+    ks([]).
+    ks([K|Ks]) :- k(K), ks(Ks).
+
+    ws([]).
+    ws([K|Ks]) :- w(K), ws(Ks).
+    """)
+
+    def list_body(self, x):
+        "Constraints that are equivalent to the list constraint `x` (None if they are not known)."
+        if isinstance(x, Term) and x.fn in {'ks', 'ws'}:
+            for r in self.list_rules:
+                s = Subst().cover(r.head, x)
+                if s is not Subst.FAIL: return s(r.body)
+
+    def entailed(self, x):
+        """
+        Is `x` entailed by the chart?  Like the other semi-det constraints, a list constraint
+        can be checked, but it should not be used to check itself.
+        """
+        body = self.list_body(x)
+        if body is None: return x in self.chart
+        return all(map(self.entailed, body))
+
     def update(self, x):
         if x not in self.chart:
             self.agenda.add(x)
@@ -194,6 +176,7 @@ class ConstraintPropagation:
             iteration += 1
 
             if not agenda:
+                self.checked.update(x for x in chart if self.list_body(x) is not None and self.entailed(x))
                 return chart
             driver = agenda.pop()
 
@@ -253,5 +236,10 @@ class ConstraintPropagation:
                             if self.debug >= 2: self.pp(colors.magenta % '  rule:', r1)
                             update(r1.head)
 
+            # The list's constituents (constituents without variables are assumed to succeed).
+            for x in self.list_body(driver) or ():
+                update(x)
+                if not term_vars(x): self.checked.add(x)
+
             for hook in self.propagation_hooks:
                 hook(self, driver)
-- 
2.43.0


From c8e70357986987d91e7880c57508939b440f6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 34/51] fix: type analysis reports arguments as free although
 they are unified with unconstrained ones

---
 dyna/analyze/types.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 863a343..ffca43f 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -50,6 +50,13 @@ def to_type_program(p):
     q.semiring = Boolean
     return q
 
+def add_any_constraints(r):
+    """
+    Make the unconstrained variables of the simple type `r` explicit: they may be
+    bound, so a $free variable that is unified with one of them may not stay $free.
+    """
+    return Rule(r.head, *r.body, *[Term('$any', v) for v in term_vars(r.head) - term_vars(r.body)])
+
 def truncate_term(x, D):
     """
     Return a term that covers `x` if we exceed a representational depth limit.
@@ -86,7 +93,7 @@ class TypeAnalyzer:
         self.program = to_type_program(program + input_type)
         self.inputs = (
             (input_type.inputs or Program([]))      # user type parameters
-            + Program('$free(_). $bound(_).')       # "builtin" type parameters
+            + Program('$free(_). $bound(_). $any(_).')       # "builtin" type parameters
         )
         self.outputs = program.outputs
         self.program.set_input_types(self.inputs)
@@ -156,9 +163,9 @@ class TypeAnalyzer:
                 for k in range(len(r.body)):
                     # better to have an outer loop over change to improve the number of "prefix firings"
                     for _ in unify(r.body[k], driver.head):
-                        for constraints in self.chart.join(*r.body[:k], *r.body[k+1:]):
+                        for constraints in self._any_chart.join(*r.body[:k], *r.body[k+1:]):
                             if self.DEBUG > 0: print(colors.dark.magenta % '  ', _pp(r, color=False))
-                            for x in self._relax(Rule(r.head, *constraints, *driver.body)):
+                            for x in self._relax(Rule(r.head, *constraints, *add_any_constraints(driver).body)):
                                 x = fresh(x)
                                 if _chart.add(x):    # duplicate
                                     if self.DEBUG > 1: print(colors.dark.yellow % '      duplicate', _pp(x, color=False))
@@ -196,7 +203,11 @@ class TypeAnalyzer:
 
     def step(self):
         "Expand the program rules against the chart, returns a Program."
-        return self.rewrites.dedup(self.relax(self.program.step(self.chart)))
+        return self.rewrites.dedup(self.relax(self.program.step(self._any_chart)))
+
+    @property
+    def _any_chart(self):
+        return self.chart.spawn([add_any_constraints(s) for s in self.chart])
 
     def relax(self, S):
         return self.program.spawn([t for s in S for t in self._relax(s)])
@@ -214,7 +225,7 @@ class TypeAnalyzer:
         # unbounded family of constraints on the head would not terminate).
         head_vars = term_vars(h)
         s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
-                      and same(truncate_term(x, self.max_depth), x)})
+                      and same(truncate_term(x, self.max_depth), x) and x.fn != '$any'})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
@@ -231,7 +242,7 @@ class TypeAnalyzer:
         assert isinstance(Q, Program), Q
         T = []
         for r in Q:
-            for ts in self.chart[r.head * r.body]:
+            for ts in self._any_chart[r.head * r.body]:
                 for t in self._relax(fresh(Rule(r.head, *ts))):
                     T.append(fresh(t))
         return self.rewrites.dedup(self.program.spawn(T))
-- 
2.43.0


From 45e78d9ba2b3279cdfdd7741240104233d25a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 35/51] fix: propagation substitutes partially solved values,
 so the result depends on the order

---
 dyna/propagate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index de84dd9..a786b55 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -206,15 +206,16 @@ class ConstraintPropagation:
                 self.checked.add(driver)
 
                 for V in solved:
+                    value = solution(V)
                     # eagerly replace all the instances of the variable with its
                     # value (in both the chart and agenda)
                     for x in list(self.chart):
                         if isinstance(x, Term) and x.fn != '=':
-                            self.update(replace_in_expr(x, V, solution[V]))
-                            self.update(replace_in_expr(x, solution[V], V))
+                            self.update(replace_in_expr(x, V, value))
+                            self.update(replace_in_expr(x, value, V))
 
                     # keep a record of the substitution
-                    self.bindings.append(Term('=', V, solution[V]))
+                    self.bindings.append(Term('=', V, value))
 
                 # If there was a change (i.e., a variable is more instantiated),
                 # we might want to try re-evaluating pending constraint that
-- 
2.43.0


From 56187fcf7af260de194329c1f14c1060a37a15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 36/51] fix: input-dependent rules are reported
 input-independent; expansiveness analysis crashes on built-ins

The input declarations are compared with the nodes of the coarse graph, which are
the merged types, so they have to be mapped to their nodes first.
---
 dyna/analyze/coarse_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 9527f13d81b0684b3772b64022defeefbe738c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 37/51] fix: components of the coarse graph lose or specialize
 rules with canonical variables

Rule heads and declarations were compared with the coarse nodes without renaming
apart; rules were also appended while their variables were bound.
---
 dyna/analyze/coarse_graph.py | 7 +++----
 dyna/program.py              | 3 +++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 2724222..df7d367 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -1,6 +1,6 @@
 from itertools import product, combinations
 
-from dyna import Program, term, unifies, unify, Rule
+from dyna import Program, term, unifies, Rule
 from dyna.term import DisjointEstimate
 from dyna.util import Hypergraph, Graph
 
@@ -88,9 +88,8 @@ class CoarseGraph:
             q.set_input_types(Program([Rule(y) for ys in C.outgoing[xs] for y in ys]))
             q.set_output_types(Program([Rule(x) for x in xs]))
             for r in p:
-                for x in xs:
-                    for _ in unify(x, r.head):
-                        q.append(r)
+                if self.nodes.root(r.head) in xs:
+                    q.append(r)
             yield (xs, q)
 
     def possibly_cyclic(self):
diff --git a/dyna/program.py b/dyna/program.py
index 0837892..d6b9b7d 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -514,10 +514,12 @@ input/output declarations</summary>\
 
     def is_input(self, x):
         if self.inputs is None: return False
+        x = fresh(x)     # rename apart
         return any(unifies(r.head, x) for r in self.inputs)    # XXX: approximate, doesn't check delayed constraints use Program's query methods
 
     def is_output(self, x):
         if self.outputs is None: return False
+        x = fresh(x)     # rename apart
         return any(unifies(r.head, x) for r in self.outputs)
 
     def safe_inline(self, x):
@@ -532,6 +534,7 @@ input/output declarations</summary>\
         return self.is_const(x) or self.is_builtin(x) or self.is_input(x)
 
     def is_item(self, x):
+        x = fresh(x)     # rename apart
         return any(unifies(r.head, x) for r in self)   # might be crude (e.g., if X += (f(Y)=X) ...)
 
     # Classification lives in `dyna.builtin` (the single source of truth, shared
-- 
2.43.0


From 52c8939759558cb1e68aacfa7d2eda447eeb3ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 38/51] fix: running-time bound of a rule with a constant is
 one

Only items and built-ins are subgoals; the values in a body are not.
---
 dyna/analyze/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/runtime.py b/dyna/analyze/runtime.py
index e4e4e4f..0853c35 100644
--- a/dyna/analyze/runtime.py
+++ b/dyna/analyze/runtime.py
@@ -1,7 +1,7 @@
 import numpy as np
 from arsenal import colors
 
-from dyna import Program, Rule, fresh, term_vars, Term, unify, Subst
+from dyna import Program, Rule, fresh, term_vars, Term, unify, Subst, snap
 from dyna.analyze import TypeAnalyzer
 
 from dyna.pretty import PrettyPrinter
@@ -142,7 +142,9 @@ class Runtime:
             return sum([self(s) for s in r])
         else:
             assert isinstance(r, Rule), r
-            return self._suffixtime(frozenset(r.body), frozenset([]), frozenset())
+            # only items and builtins are subgoals, values are not
+            subgoals = frozenset(b for b in r.body if isinstance(snap(b), Term))
+            return self._suffixtime(subgoals, frozenset([]), frozenset())
 
     @cache
     def _suffixtime(self, suffix, C, V):
-- 
2.43.0


From 3cad4318bf3d97e34a7fe82dafcc7b7bba6af528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 39/51] fix: linear solver loses non-ground items and
 built-ins, and turns 0*inf into nan

---
 dyna/execute/linear.py | 60 ++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..4b3b74a 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -1,6 +1,7 @@
 import numpy as np
 from arsenal import Integerizer, colors
-from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
+from dyna import Program, TransformedProgram, Rule, term_vars, canonicalize, snap, is_var
+from dyna.builtin import is_builtin
 
 
 def kleene(A, semiring, reflexive=True):
@@ -21,7 +22,10 @@ def kleene(A, semiring, reflexive=True):
         for i in range(N):
             for k in range(N):
                 # i ➙ j ⇝ j ➙ k
-                new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
+                new[i,k] = old[i,k]
+                # Zero annihilates (spelled out because 0*∞ is not 0 for floats)
+                if old[i,j] != zero and old[j,k] != zero:
+                    new[i,k] = new[i,k] + old[i,j] * sjj * old[j,k]
         old, new = new, old   # swap to repurpose space
     if reflexive:  # post processing fix-up: add the identity matrix
         for i in range(N): old[i,i] += one
@@ -46,37 +50,39 @@ class kleene_linsolve(TransformedProgram):
 
         M = p.Semiring.chart()
         V = p.Semiring.chart()
+        builtins = Program(semiring=p.Semiring)
 
-        # The following two loops instantiate p's rules according to the
-        # estimated support in `bsol`.
+        # The following loops instantiate p's rules according to the estimated
+        # support in `bsol`.
         for r in p:
-            for _ in bsol[r.body]:
-
-                # Below, we extract <= 1 variable and fold coefficients
-                vs = []
-                coeff = p.Semiring.one
-                for b in r.body:          # XXX: assumes commutativity - better to check!
-                    if p.is_const(b):
-                        coeff *= b
-                    else:
-                        vs.append(b)
-                assert len(vs) <= 1
 
-                if len(vs) == 0:
-                    V[canonicalize(r.head)] += coeff
+            # Below, we extract <= 1 variable (i.e., item) and fold coefficients.
+            # XXX: assumes commutativity - better to check!
+            vs = [b for b in r.body if not (p.is_const(b) or is_builtin(b))]
+            weights = [b for b in r.body if p.is_const(b) or is_var(b)]
+            rest = [b for b in r.body if is_builtin(b) and not is_var(b)]
+            assert len(vs) <= 1
 
-                else:
-                    [var] = vs
+            # The item is matched first as it may bind arguments of the builtins.
+            for match in (bsol.lookup(vs[0]) if vs else [None]):
+                for values in builtins.join(*rest):
 
-                    [h, v] = canonicalize(Term('tmp', r.head, var)).args
+                    coeff = p.Semiring.one
+                    for b in [*weights, *values]:
+                        assert p.is_const(b), f'delayed constraint {b} in {r}'
+                        coeff = coeff * snap(b)
 
-                    if len(term_vars(v) - term_vars(h)) > 0:
-                        #print('warning dropped variable')
-                        #print(h, '+=', v)
+                    if len(term_vars(r.body) - term_vars(r.head)) > 0:
+                        # dropped variable
                         coeff = coeff * p.Semiring.multiple(float('inf'))
 
-                    M[h, v] += coeff
-
+                    h = canonicalize(r.head)
+                    if match is None:
+                        V[h] += coeff
+                    else:
+                        # The unknown is the item that matched, which may be
+                        # more general than the instance that this rule uses.
+                        M[h, canonicalize(bsol.rules[match.i].head)] += coeff
 
         pack = pack_arrays(M, V, p.Semiring)
         self.arrays = pack
@@ -84,7 +90,9 @@ class kleene_linsolve(TransformedProgram):
         #print(p)
         #print(pack)
 
-        sol = kleene(pack.MM, p.Semiring) @ pack.VV
+        K = kleene(pack.MM, p.Semiring)
+        zero = p.Semiring.zero
+        sol = [sum((a * b for a, b in zip(row, pack.VV) if a != zero and b != zero), start=zero) for row in K]
 
         Sol = [Rule(x, sol[i]) for i,x in enumerate(pack.ix)]
 
-- 
2.43.0


From 0e2494fe112c5247c898274ea880504bd9bd1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 40/51] fix: Newton iteration takes built-ins for items, so
 rules with built-ins are lost

---
 dyna/program.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index d6b9b7d..1fee1e9 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1120,7 +1120,9 @@ input/output declarations</summary>\
         # empty
         chart = Program(semiring=self.semiring)
         # initialize with dim<=1 derivations
-        change_p = Program([r for r in self if r.is_const() or r.is_linear()],
+        from dyna.builtin import is_builtin
+        def is_item(y): return not (self.is_const(y) or is_builtin(y))
+        change_p = Program([r for r in self if sum(map(is_item, r.body)) <= 1],
                            inputs='', outputs='', semiring=self.semiring, has_builtins=False)
         t = 0
         while True:
@@ -1134,11 +1136,11 @@ input/output declarations</summary>\
                 x = r.head; ys = r.body; K = len(ys)
                 # recursive case
                 for k in range(K):
-                    if self.is_const(ys[k]): continue
+                    if not is_item(ys[k]): continue
                     next_change_p[x] = next_chart[ys[:k]] * Constant(ys[k], ys[k]) * next_chart[ys[k+1:]]
                 # base case
                 for i,j in combinations(range(K), 2):
-                    if self.is_const(ys[i]) or self.is_const(ys[j]): continue
+                    if not (is_item(ys[i]) and is_item(ys[j])): continue
                     assert i < j
                     next_change_p[x] = next_chart[ys[:i]] * change[ys[i]] * chart[ys[i+1:j]] * change[ys[j]] * chart[ys[j+1:]]
             chart = next_chart
-- 
2.43.0


From 52d0741373b23b590606fc6d4ec6e04de255322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 41/51] fix: safety measure accepts unfolding by rules whose
 subgoals only a sibling branch defines

---
 dyna/transform/measure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dyna/transform/measure.py b/dyna/transform/measure.py
index 23c7981..c31795c 100644
--- a/dyna/transform/measure.py
+++ b/dyna/transform/measure.py
@@ -8,7 +8,7 @@ from dyna import Program
 #from dyna.analyze.abbreviate import Abbreviate
 from dyna.derivations import Derivation, Product
 from dyna.program import Define
-from dyna.term import fresh, unifies
+from dyna.term import fresh, Term, unifies
 
 
 class measure_safety:
@@ -177,13 +177,19 @@ class Measure:
 
         For each foreign Define in `defs`'s lineage, we report a violation
         when any of its new rule heads unifies with any head in `parent`, or
-        with the `subgoal` being folded/unfolded (as `parent` doesn't define it).
+        with the `subgoal` being folded/unfolded (as `parent` doesn't define it),
+        or with a subgoal of the rules that define `subgoal` in `defs` (an
+        unfold would insert it into `parent`, which doesn't define it).
         Similarly, `defs` must not lack a definition of the `subgoal` that `parent` has.
 
         Returns the list of (defs_rule, parent_head) pairs that violate..
         """
         parent_stage_ids = {id(s) for s in parent.lineage()}
         violations = []
+        used = [p_rule.head for p_rule in parent.rules] + [subgoal]
+        for d_rule in defs.rules:
+            if unifies(fresh(d_rule.head), fresh(subgoal)):
+                used.extend(y for y in d_rule.body if isinstance(y, Term))
         for stage in defs.lineage():
             if not isinstance(stage, Define):
                 continue
@@ -193,7 +199,7 @@ class Measure:
             # rules are foreign to parent. Flag any whose head clashes.
             for idx in stage._new_ix:
                 d_rule = stage.rules[idx]
-                for p_head in [p_rule.head for p_rule in parent.rules] + [subgoal]:
+                for p_head in used:
                     if unifies(fresh(d_rule.head), fresh(p_head)):
                         violations.append((d_rule, p_head))
                         break
-- 
2.43.0


From 8082647f7cc1b2aae44ba82dd38d44bf026f33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 42/51] fix: fold proposals that differ only in the folded
 subgoal are dropped as duplicates

---
 dyna/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 1fee1e9..9839b73 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1713,7 +1713,10 @@ input/output declarations</summary>\
         based on the definitions `defs`.  Returns a set of rules that *may* be useful
         for generalized folds.
         """
-        proposals = NoDupsSet([], Rule.same)
+        def mark(r): return Rule(r.head, Term('$fold', r.subgoal), *r.left, *r.right)
+
+        # Equal rules that differ in the folded subgoal are different proposals.
+        proposals = NoDupsSet([], lambda r, s: r.same(s) and mark(r).same(mark(s)))
         for i in range(len(defs)):
             d_sig = defs.rules[i]._body_fns
             for j in range(len(self)):
-- 
2.43.0


From 377d385e2e3abc7a492ea724341486978667a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 43/51] fix: slash derivation mapping crashes where the spine
 ends at a frozen item of the divisor's type

---
 dyna/transform/slash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..495527e 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -214,7 +214,7 @@ class Slash(TransformedProgram):
 
                 # slash base case; this is the bottommost element of Xs along the spine.
                 if unifies(d.head, self.x):
-                    return D_rso(d.head, D_oo(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
+                    return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
                 else:
                     if self._is_useful_other(d.head):
                         return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
-- 
2.43.0


From 16a16b7979fe9a0de2a59046cec8328fe52834c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 44/51] fix: slash derivation mapping decides by the instance
 whether an item is frozen, but the program by the rule's head

---
 dyna/transform/slash.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 495527e..7c5dba3 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -150,8 +150,12 @@ class Slash(TransformedProgram):
         #tree = self.d(None)
         coarsen = self._parent_nodes.root
         slash = self._slash
-        frozen = self._other
+        # whether a rule's items are frozen is decided by the head of the rule (see
+        # `__init__`); an instance of the head might no longer unify with the
+        # useful items.
         is_frozen = lambda x: isinstance(x, Term) and x.fn == self.other_fn
+        useful = is_frozen(self._other(self.parent.rules[d.i].head))
+        frozen = lambda head: Term(self.other_fn, head) if useful else head
 
         getx = lambda o: (o.head.args[0] if is_frozen(o.head) else o.head) if isinstance(o, Derivation) else o
 
@@ -173,7 +177,7 @@ class Slash(TransformedProgram):
                 return D_rso(d.head, D_o(d)(frozen(d.head), *rest), D_base(slash(d.head, d.head)))
 
             else:
-                if self._is_useful_other(d.head):
+                if useful:
                     return D_ro(d.head, D_o(d)(frozen(d.head), *rest))
                 else:
                     return D_o(d)(d.head, *rest)
@@ -198,7 +202,7 @@ class Slash(TransformedProgram):
                     if unifies(d.head, self.x):
                         return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
                     else:
-                        if self._is_useful_other(d.head):
+                        if useful:
                             return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
                         else:
                             return D_oo(d)(d.head, *left, o, *right)
@@ -216,7 +220,7 @@ class Slash(TransformedProgram):
                 if unifies(d.head, self.x):
                     return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
                 else:
-                    if self._is_useful_other(d.head):
+                    if useful:
                         return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
                     else:
                         return D_oo(d)(d.head, *left, o, *right)
-- 
2.43.0


From 80ff037167cc15e9f15e22aacc96b36e0ec80277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 45/51] fix: equal infinite values are not recognized as equal,
 so solvers loop forever and metric is nan

---
 dyna/execute/base.py | 4 +++-
 dyna/program.py      | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..d6ec1cd 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -71,7 +71,9 @@ class BaseSolver:
         # being exact — important for LogVal, whose stock `__eq__` uses
         # `np.allclose` and would collapse small-but-distinct values,
         # causing premature fixpoint convergence here.
-        return self.Weight.metric(x, y) <= self.tol
+        # Equal infinities are at distance zero (but `inf - inf` is nan).
+        d = self.Weight.metric(x, y)
+        return d <= self.tol or (d != d and x == y)
 
     #___________________________________________________________________________
     # Inference methods
diff --git a/dyna/program.py b/dyna/program.py
index 9839b73..ccfb9b7 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -605,10 +605,14 @@ input/output declarations</summary>\
         # callers using metric for fixpoint convergence keep propagating
         # (matches the old `round(...) == round(...)` semantics where
         # any added/removed rule made the structural `==` false).
+        def dist(x, y):
+            d = sr.metric(x, y)
+            return 0 if d != d and x == y else d   # `inf - inf` is nan
+
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
+            chart_d = max((dist(A_chart[k], B_chart[k]) for k in A_chart),
                           default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
-- 
2.43.0


From f7b2b1857cffd04bedeb787f991a33a7898e25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 46/51] fix: the literal inf is parsed as an item, so programs
 with infinite values do not print and parse back

---
 dyna/pretty.py | 2 +-
 dyna/syntax.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 4c5f0a4..2135cb2 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -28,7 +28,7 @@ unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 # functors that need no quotes: the parser's `FUNCTOR1` apart from its keywords
 FUNCTOR = re.compile(re.search(r'^FUNCTOR1: /(.*)/$', parser.grammar, re.M)[1])
 
-RESERVED = {f.op for f in ops if f.op and FUNCTOR.fullmatch(f.op)} | {'true', 'false'}
+RESERVED = {f.op for f in ops if f.op and FUNCTOR.fullmatch(f.op)} | {'true', 'false', 'inf'}
 
 nullops = {str(f.op) for f in ops if isinstance(f, NullOp)}
 
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 590c3cf..4a84edd 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -243,7 +243,7 @@ literal: ESCAPED_STRING -> string
        | "true"         -> true
        | "false"        -> false
        | list           -> noop
-       | /inf/          -> inf
+       | "inf"          -> inf
        | /∞/            -> inf
 
 variable: VAR  -> variable
-- 
2.43.0


From 1b79f5d57fe83d84c835b0db095e1c641511c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 47/51] fix: safety measure accepts folds and unfolds by
 definitions that lack the items a speculation introduced

---
 dyna/transform/lct.py     |  3 +++
 dyna/transform/measure.py | 14 +++++++-------
 dyna/transform/slash.py   |  3 +++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index e0775b6..0422f77 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -117,6 +117,9 @@ class LCT(TransformedProgram):
         for i,r in enumerate(self):
             r._index = i
 
+        # the rules of the items that the parent program does not have
+        self._new_ix = [i for i, r in enumerate(self) if isinstance(r.head, Term) and r.head.fn in (slash_fn, other_fn)]
+
     def _slash(self, y, x):
         #assert not self.is_const(x), x
         return Term(self.slash_fn, y, x)
diff --git a/dyna/transform/measure.py b/dyna/transform/measure.py
index c31795c..0e29270 100644
--- a/dyna/transform/measure.py
+++ b/dyna/transform/measure.py
@@ -7,7 +7,6 @@ from arsenal import colors
 from dyna import Program
 #from dyna.analyze.abbreviate import Abbreviate
 from dyna.derivations import Derivation, Product
-from dyna.program import Define
 from dyna.term import fresh, Term, unifies
 
 
@@ -175,6 +174,8 @@ class Measure:
         — and folding/unfolding via that rule silently introduces an equation
         the algebra never checks for consistency with `parent`'s definitions.
 
+        The same goes for the items that a speculation introduces.
+
         For each foreign Define in `defs`'s lineage, we report a violation
         when any of its new rule heads unifies with any head in `parent`, or
         with the `subgoal` being folded/unfolded (as `parent` doesn't define it),
@@ -191,13 +192,12 @@ class Measure:
             if unifies(fresh(d_rule.head), fresh(subgoal)):
                 used.extend(y for y in d_rule.body if isinstance(y, Term))
         for stage in defs.lineage():
-            if not isinstance(stage, Define):
-                continue
+            new_ix = getattr(stage, '_new_ix', ())   # Define, Slash, LCT
             if id(stage) in parent_stage_ids:
                 continue
-            # This Define is in defs's lineage but NOT in parent's. Its new
+            # This stage is in defs's lineage but NOT in parent's. Its new
             # rules are foreign to parent. Flag any whose head clashes.
-            for idx in stage._new_ix:
+            for idx in new_ix:
                 d_rule = stage.rules[idx]
                 for p_head in used:
                     if unifies(fresh(d_rule.head), fresh(p_head)):
@@ -205,8 +205,8 @@ class Measure:
                         break
         defs_stage_ids = {id(s) for s in defs.lineage()}
         for stage in parent.lineage():
-            if isinstance(stage, Define) and id(stage) not in defs_stage_ids:
-                for idx in stage._new_ix:
+            if id(stage) not in defs_stage_ids:
+                for idx in getattr(stage, '_new_ix', ()):
                     d_rule = stage.rules[idx]
                     if unifies(fresh(d_rule.head), fresh(subgoal)):
                         violations.append((d_rule, subgoal))
diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 7c5dba3..43c6c4e 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -117,6 +117,9 @@ class Slash(TransformedProgram):
         for i,r in enumerate(self):
             r._index = i
 
+        # the rules of the items that the parent program does not have
+        self._new_ix = [i for i, r in enumerate(self) if isinstance(r.head, Term) and r.head.fn in (slash_fn, other_fn)]
+
     def _slash(self, y, x):
         #assert not self.is_const(x), x
         return Term(self.slash_fn, y, x)
-- 
2.43.0


From 585111f4688e85027c581fa2d46fa4bb7d0f48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 48/51] fix: safety measure counts x/x as a subgoal of positive
 size, so circular folds are accepted

---
 dyna/transform/lct.py     | 1 +
 dyna/transform/measure.py | 3 +++
 dyna/transform/slash.py   | 1 +
 3 files changed, 5 insertions(+)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index 0422f77..540a17f 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -198,6 +198,7 @@ class LCT(TransformedProgram):
 
         # Each of the remaining rules (those in {base} ∪ rso ∪ ro) have measure zero.
         m[self.base._index] = M.Interval(0, 0)
+        M.size_zero.append(self.base.head)
         for r in self.rso.values():   m[r._index] = M.Interval(0, 0)
         for r in self.ro.values():    m[r._index] = M.Interval(0, 0)
 
diff --git a/dyna/transform/measure.py b/dyna/transform/measure.py
index 0e29270..5784595 100644
--- a/dyna/transform/measure.py
+++ b/dyna/transform/measure.py
@@ -67,6 +67,7 @@ class Measure:
         self.measures = {}
         self._var_id = 0
         self.symbolic = symbolic
+        self.size_zero = []    # items that have derivations of size zero, e.g., `X/X`
         # Constructors exposed so each transform's `compute_measure(M)` method
         # can build measures through the Measure context `M` rather than
         # importing them from this module. This keeps the transforms agnostic of
@@ -114,6 +115,8 @@ class Measure:
             return sum(self.min_size(x) for x in xs)
         elif Program.is_const(xs) or Program.is_builtin(xs):
             return 0
+        elif any(unifies(fresh(x), fresh(xs)) for x in self.size_zero):
+            return 0
         else:
             return 1
 
diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 43c6c4e..14c70bd 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -249,6 +249,7 @@ class Slash(TransformedProgram):
 
         # Each of the remaining rules (those in {base} ∪ rso ∪ ro) have measure zero.
         m[self.base._index] = M.Interval(0, 0)
+        M.size_zero.append(self.base.head)
         for r in self.rso.values():   m[r._index] = M.Interval(0, 0)
         for r in self.ro.values():    m[r._index] = M.Interval(0, 0)
 
-- 
2.43.0


From 2029e2cd1e799b8831a1112ea6e7ec90b39a1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:14 +0000
Subject: [PATCH 49/51] fix: forward chaining multiplies zero old values into
 infinite ones, so values become nan

---
 dyna/execute/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 151431b..51659ac 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -101,12 +101,14 @@ class Solver(BaseSolver):
                 c = self.one
                 for j, z in enumerate(s.body):   # XXX: better to reuse prefix products or binarize
                     if j < i and z == a:
+                        if old == self.zero: break    # no contribution (`0 * inf` is nan)
                         c *= old
                     elif i == j:
                         c *= Δ
                     else:
                         c *= P[j]
-                self.update(s.head, c)
+                else:
+                    self.update(s.head, c)
         return self
 
     def drive_rules(self, a, old, Δ):
-- 
2.43.0


From cb4ddca0991da40f065127277c341dc38bba0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:26 +0000
Subject: [PATCH 50/51] fix: goal-directed evaluation misses dependencies of
 non-ground items, as their variables are shared with the chart

---
 dyna/program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index ccfb9b7..72743b2 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -999,7 +999,8 @@ input/output declarations</summary>\
             # reads the result — otherwise transitive bindings on `x` mutate
             # tarjan's dict-key hash mid-walk.
             out = []
-            for r in s1.program.lookup(x):
+            # `x` is canonical, so it shares its variables with the chart of `s1`
+            for r in s1.program.lookup(fresh(x)):
                 for _ in s1.ground_out_rule(r):
                     for b in r.body:
                         if not s1.program.is_exogenous(b):
-- 
2.43.0


From a947f86e6e7611be1401b03c89d5f253c30c65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 51/51] fix: negative infinity is parsed as an expression, so
 programs with the value -inf do not print and parse back

---
 dyna/syntax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 4a84edd..1f057ad 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -142,6 +142,9 @@ class DynaTransformer(Transformer):
     def inf(self, _):
         return float('inf')
 
+    def neg_inf(self, _):
+        return -float('inf')
+
     def true(self, _):
         return True
 
@@ -244,6 +247,7 @@ literal: ESCAPED_STRING -> string
        | "false"        -> false
        | list           -> noop
        | "inf"          -> inf
+       | /-inf(?!["'$\w])/ -> neg_inf
        | /∞/            -> inf
 
 variable: VAR  -> variable
-- 
2.43.0

