From 1f4eb2ee157e93031f8c83dce3370b32df413ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 001/110] fix: save a function with labels from a transition
 system

The atomic propositions of a state are a set, which is not
serializable to JSON, so save(path, transys) always raised.
---
 tulip/transys/mathfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/mathfunc.py b/tulip/transys/mathfunc.py
index 04a4a5e..a59ea71 100644
--- a/tulip/transys/mathfunc.py
+++ b/tulip/transys/mathfunc.py
@@ -90,7 +90,7 @@ class LabeledStateInputOutputPair:
             ) -> dict:
         """Convert this object to a jsonable object, i.e., a dictionary"""
         labels = (
-            transys.states[self.state]["ap"]
+            sorted(transys.states[self.state]["ap"])
             if transys is not None else self.labels)
         ret = dict(
             state=self.state,
-- 
2.43.0


From d67a891091a3b215e5f6053a77336cc59e06e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 002/110] fix: require declared integer domains in the omega
 interface

Variables are represented with bits, so without the bounds the game
was solved over all values that the bits can take: synthesis raised
ValueError, or realizability was decided for larger domains.
---
 tulip/interfaces/omega.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index c595ed0..e6fe535 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -163,6 +163,7 @@ def _grspec_to_automaton(
     a.init['sys'] = _conj(g.sys_init, f)
     a.action['env'] = _conj(g.env_safety, f)
     a.action['sys'] = _conj(g.sys_safety, f)
+    _add_domain_bounds(a, g)
     if g.env_prog:
         w1 = [f'!({s})' for s in map(f, g.env_prog)]
     else:
@@ -180,6 +181,42 @@ def _grspec_to_automaton(
     return a
 
 
+def _add_domain_bounds(
+        a:
+            trl.Automaton,
+        g:
+            _spec.GRSpec
+        ) -> None:
+    """Constrain integer variables to their declared domains.
+
+    `omega` represents an integer variable with bits,
+    so the declared domain needs to be required by
+    the initial conditions and actions.
+    """
+    env_vars = a.varlist['env']
+    sys_vars = a.varlist['sys']
+    env_init = a.add_expr(a.type_hint_for(env_vars))
+    sys_init = a.add_expr(a.type_hint_for(sys_vars))
+    env_action = a.add_expr(a.type_action_for(env_vars))
+    sys_action = a.add_expr(a.type_action_for(sys_vars))
+    # `\A \A` is defined for no `sys_init`, and
+    # `\E \E` is defined for no `env_init`
+    if g.qinit == r'\A \A':
+        a.init['env'] &= env_init & sys_init
+    elif g.qinit == r'\E \E':
+        a.init['sys'] &= env_init & sys_init
+    else:
+        a.init['env'] &= env_init
+        a.init['sys'] |= ~ env_init
+        a.init['sys'] &= sys_init
+    # values outside the domains of environment variables
+    # are not steps of the environment, so
+    # they require nothing from the system
+    a.action['env'] &= env_action
+    a.action['sys'] |= ~ env_action
+    a.action['sys'] &= sys_action
+
+
 def _conj(
         strings:
             _abc.Iterable,
-- 
2.43.0


From 0ec32501f41f31f52961b29c3af00dd9ceaae65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 003/110] fix: return None for unsatisfiable system safety

synthesize() asserted that the system action is satisfiable, instead
of returning None for an unrealizable specification.
---
 tulip/interfaces/omega.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index e6fe535..b1a6aa4 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -51,7 +51,6 @@ def synthesize_enumerated_streett(
         ) -> nx.DiGraph:
     """Return transducer enumerated as a graph."""
     aut = _grspec_to_automaton(spec)
-    assert aut.action['sys'] != aut.false
     t0 = time.time()
     z, yij, xijk = gr1.solve_streett_game(aut)
     t1 = time.time()
-- 
2.43.0


From dcdfd7b167a7e049d7e0798e5e6087a9c95e45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 004/110] fix: remove states from automata whether or not they
 are accepting

---
 tulip/transys/automata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d7bb5a6..b83c184 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -183,7 +183,8 @@ class FiniteStateAutomaton(
         accepting set if present.
         """
         # intercept to remove also from accepting states
-        self.accepting.remove(node)
+        if node in self.accepting:
+            self.accepting.remove(node)
         super().remove_node(node)
 
 
@@ -603,6 +604,14 @@ class RabinAutomaton(
         self.accepting = RabinPairs(self.states)
         self.automaton_type = 'Rabin Automaton'
 
+    def remove_node(self, node):
+        """Remove state, also from the acceptance pairs."""
+        for good, bad in self.accepting:
+            for states in (good, bad):
+                if node in states:
+                    states.remove(node)
+        super().remove_node(node)
+
 
 class DRA(
         RabinAutomaton):
-- 
2.43.0


From 81f1fee852837d87e0b64f8e0436b3241615e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 005/110] fix: compute reachable states on the graph

---
 tulip/transys/labeled_graphs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index eae44ab..03801d3 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -276,7 +276,8 @@ class States:
 
         Wrapper of `networkx.descendants()`.
         """
-        return nx.descendants(self, state)
+        return nx.descendants(
+            self.graph, state)
 
     def backward_reachable(
             self,
@@ -286,7 +287,8 @@ class States:
 
         Wrapper of `networkx.ancestors()`.
         """
-        return nx.ancestors(self, state)
+        return nx.ancestors(
+            self.graph, state)
 
     def paint(
             self,
-- 
2.43.0


From 2aa20953525a9a0eb6c1432024ceccdaefa4d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 006/110] fix: detect existing transitions that have default
 labels

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 03801d3..11b598f 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1249,7 +1249,7 @@ class LabeledDiGraph(
                 f'where:\t from_state = {u}\n'
                 f'and:\t to_state = {v}\n')
         # check if same labeled transition exists
-        if attr_dict in existing_u_v.values():
+        if typed_attr in existing_u_v.values():
             _logger.warning(
                 'Same labeled transition:\n'
                 'from_state---[label]---> to_state\n'
-- 
2.43.0


From db7b4ff43f6775e280c581d7228936e331c6cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 007/110] fix: remove all transitions between two states when
 no label is given

---
 tulip/transys/labeled_graphs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 11b598f..0624121 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1346,6 +1346,9 @@ class LabeledDiGraph(
             **attr):
         """Remove single labeled edge.
 
+        If no attributes are given, then remove
+        all edges from `u` to `v`.
+
         @param attr_dict:
             attributes with which to identify the edge.
         @param attr:
@@ -1361,7 +1364,7 @@ class LabeledDiGraph(
             key
             for key, data in
                 self[u][v].items()
-            if data == attr_dict}
+            if not attr_dict or data == attr_dict}
         for key in rm_keys:
             self.remove_edge(
                 u, v,
-- 
2.43.0


From 7316751931ffdc5d7da03335fcf05a3e859b6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 008/110] fix: store labels in typed dictionaries

---
 tulip/transys/labeled_graphs.py | 9 ++++++++-
 tulip/transys/mathset.py        | 8 ++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 0624121..8701a24 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1147,9 +1147,13 @@ class LabeledDiGraph(
             typed_attr,
             self._node_label_types,
             check)
+        is_new = n not in self._node
         nx.MultiDiGraph.add_node(
             self, n,
             **typed_attr)
+        # `networkx` copies the attributes to a `dict`
+        if is_new:
+            self._node[n] = typed_attr
 
     def add_nodes_from(
             self,
@@ -1278,9 +1282,12 @@ class LabeledDiGraph(
         else:
             # selfloops work this way
             # without special treatment
-            nx.MultiDiGraph.add_edge(
+            datadict = typed_attr
+            key = nx.MultiDiGraph.add_edge(
                 self, u, v,
                 **typed_attr)
+        # `networkx` copies the attributes to a `dict`
+        self._adj[u][v][key] = datadict
 
     def add_edges_from(
             self,
diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7c86332..793551d 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -1019,8 +1019,8 @@ class TypedDict(
         Use case: changing the object that allowed_values
         points to can invalidate the assigned values.
         """
-        for k, v in self:
-            if k in self.allowed_values:
-                if v not in self.allowed_values[k]:
-                    return False
+        for k, v in self.items():
+            values = self.allowed_values.get(k)
+            if values is not None and v not in values:
+                return False
         return True
-- 
2.43.0


From 7eeac705cbcc74c270deb751f1668c62b7f94c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 009/110] fix: return states and colors from game graph queries

---
 tulip/transys/automata.py | 5 ++---
 tulip/transys/transys.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index b83c184..2f10ec4 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -696,9 +696,8 @@ class ParityGame(
         Maximization is over all nodes.
         In absence of nodes, return `-1`.
         """
-        def key(node):
+        def color(node):
             return self.nodes[node]['color']
         return max(
-            self,
-            key=key,
+            map(color, self),
             default=-1)
diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7e347f6..3158ab3 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1086,7 +1086,7 @@ class GameGraph(
         def matches(node):
             return n == self.nodes[
                 node]['player']
-        return filter(matches, self)
+        return set(filter(matches, self))
 
     def edge_controlled_by(
             self,
-- 
2.43.0


From 068465fb203bcd0c5dc5419defb9ceff8f3f0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 010/110] fix: construct labeled game graphs

---
 tulip/transys/transys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 3158ab3..06a5e0a 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1129,7 +1129,8 @@ class LabeledGameGraph(
                 ap_labels.math_set,
             default=
                 set())]
-        super().__init__(node_label_types)
+        super().__init__(
+            node_label_types, list())
         self.atomic_propositions = self.ap
         # dot formatting
         self._state_dot_label_format = {
-- 
2.43.0


From 351311c0c68ee99e515afcfcacca8653173021bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 011/110] fix: find labeled states when adding initial states

---
 tulip/transys/transys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 06a5e0a..c5172f9 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1004,7 +1004,10 @@ def add_initial_states(
         `ts.atomic_propositions`)
     """
     for label in ap_labels:
-        new_init_states = ts.states.find(ap='label')
+        new_init_states = [
+            state
+            for state, _ in ts.states.find(
+                with_attr_dict=dict(ap=label))]
         ts.states.initial |= new_init_states
 
 
-- 
2.43.0


From 89b7f40459e5f610ff84045a46c0570999a31a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 012/110] fix: label states and edges in tuple2fts and
 line_labeled_with

---
 tulip/transys/transys.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index c5172f9..33d8e0e 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -783,7 +783,7 @@ def tuple2fts(
                 'defined using an `Iterable`.')
         state_label_pairs = True
         # cannot be caught by try below
-        if isinstance(state_labeling[0], str):
+        if isinstance(state_labeling[0], str | set | frozenset):
             state_label_pairs = False
         if state_labeling[0] is None:
             state_label_pairs = False
@@ -805,7 +805,7 @@ def tuple2fts(
             'States `S` must be iterable, '
             'even for single state.')
     # convention
-    if not isinstance(S0, _abc.Iterable | str):
+    if not isinstance(S0, _abc.Iterable) or isinstance(S0, str):
         S0 = [S0]
     # comprehensive names
     states = S
@@ -837,7 +837,10 @@ def tuple2fts(
         for state, ap_label in state_labeling:
             if ap_label is None:
                 ap_label = set()
-            state = f'{prepend_str}{state}'
+            if isinstance(ap_label, str):
+                ap_label = {ap_label}
+            [state] = _graphs.prepend_with(
+                [state], prepend_str)
             _logger.debug(
                 f'Labeling state:\n\t{state}\n'
                 f'with label:\n\t{ap_label}\n')
@@ -853,7 +856,7 @@ def tuple2fts(
                 f'\t{from_state} ---> {to_state}\n')
             ts.transitions.add(from_state, to_state)
     else:
-        ts.actions |= actions
+        ts.sys_actions |= actions
         for from_state, to_state, act in transitions:
             from_state, to_state = _graphs.prepend_with(
                 [from_state, to_state],
@@ -863,7 +866,7 @@ def tuple2fts(
                 f'{from_state} ---[{act}]---> {to_state}\n')
             ts.transitions.add(
                 from_state, to_state,
-                actions=act)
+                sys_actions=act)
     return ts
 
 
@@ -920,6 +923,8 @@ def line_labeled_with(
         # skip empty label ?
         if ap_subset is None:
             continue
+        if isinstance(ap_subset, str):
+            ap_subset = {ap_subset}
         AP |= set(ap_subset)
     Act = None
     from_states = range(m, m + n - 1)
-- 
2.43.0


From c90f19017bcb67644983919f6fed2477aab38ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 013/110] fix: add each letter to the alphabet in tuple2ba

---
 tulip/transys/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 2f10ec4..33b1fd5 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -360,7 +360,7 @@ def tuple2ba(
         ba.alphabet.math_set.update(
             alphabet_or_ap)
     elif isinstance(ba.alphabet, set):
-        ba.alphabet.add(alphabet_or_ap)
+        ba.alphabet.update(alphabet_or_ap)
     else:
         raise AssertionError(
             f'unexpected case: {ba.alphabet = }')
-- 
2.43.0


From c62bc471082319295bbfed013615985913377937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 014/110] fix: remove tuple states from Rabin automata

---
 tulip/transys/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 33b1fd5..4c9b140 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -610,7 +610,8 @@ class RabinAutomaton(
             for states in (good, bad):
                 if node in states:
                     states.remove(node)
-        super().remove_node(node)
+        _graphs.LabeledDiGraph.remove_node(
+            self, node)
 
 
 class DRA(
-- 
2.43.0


From 51f637ae918ddd195f8710d3617be24b1ef4f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 015/110] fix: add hashable items together with unhashable ones
 to MathSet

---
 tulip/transys/mathset.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 793551d..1cb098d 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -324,8 +324,7 @@ class MathSet:
                 _abc.Iterable
             ) -> _abc.Iterable:
         return filter(
-            lambda x:
-                isinstance(x, _abc.Hashable),
+            is_hashable,
             iterable)
 
     def _filter_unhashables(
@@ -335,7 +334,7 @@ class MathSet:
             ) -> list:
         return list(filter(
             lambda x:
-                not isinstance(x, _abc.Hashable),
+                not is_hashable(x),
             iterable))
 
     def _delete_all(self) -> None:
@@ -423,14 +422,10 @@ class MathSet:
             self._set |= iterable
             return
         # filter to optimize storage
-        try:
-            self._set |= set(self._filter_hashables(iterable))
-            self._list = list(unique(
-                self._list + self._filter_unhashables(iterable)))
-            return
-        except:
-            # ...if contents of elements in iterable are mutable
-            self._list = list(unique(self._list + list(iterable)))
+        iterable = list(iterable)
+        self._set |= set(self._filter_hashables(iterable))
+        self._list = list(unique(
+            self._list + self._filter_unhashables(iterable)))
 
     def remove(
             self,
@@ -701,6 +696,19 @@ class CartesianProduct:
         any(map(self.remove, mathsets))
 
 
+def is_hashable(item) -> bool:
+    """Return `True` if `item` can be stored in a `set`.
+
+    A hashable container, for example a tuple,
+    can have unhashable items.
+    """
+    try:
+        hash(item)
+    except TypeError:
+        return False
+    return True
+
+
 def unique(
         iterable:
             _abc.Iterable
-- 
2.43.0


From 739185352c14382c21a0d73a5f2a817ec09e25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 016/110] fix: test membership in Cartesian products

---
 tulip/transys/mathset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 1cb098d..7bba6cd 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -665,9 +665,11 @@ class CartesianProduct:
                 'Argument element must be `Iterable`, otherwise cannot '
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
-        pairs = zip(self.mathsets, element)
-        return all(map(
-            _op.contains, pairs))
+        element = tuple(element)
+        return (
+            len(element) == len(self.mathsets) and
+            all(map(
+                _op.contains, self.mathsets, element)))
 
     def add(
             self,
-- 
2.43.0


From 735015acd58539303d465c48af7a521d08cce34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 017/110] fix: unhashable items are not elements of a set of
 hashables

---
 tulip/transys/mathset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7bba6cd..df69f22 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -789,9 +789,13 @@ def is_subset(
             big_iterable = set(big_iterable)
         except TypeError:
             pass
-    return all(map(
-        big_iterable.__contains__,
-        small_iterable))
+    try:
+        return all(map(
+            big_iterable.__contains__,
+            small_iterable))
+    except TypeError:
+        # unhashable item, so not in a container of hashables
+        return False
 
 
 def powerset(
-- 
2.43.0


From e40f6707400e1bb4dcc1baae0bcd908e45c67caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 018/110] fix: check values in all updates of typed
 dictionaries, before changing any

---
 tulip/transys/mathset.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index df69f22..2f83f3b 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -961,6 +961,22 @@ class TypedDict(
             y
             ) -> None:
         """Raise ValueError if value y not allowed for key i."""
+        self._check_value(i, y)
+        super().__setitem__(i, y)
+
+    def __ior__(
+            self,
+            other
+            ) -> 'TypedDict':
+        self.update(other)
+        return self
+
+    def _check_value(
+            self,
+            i,
+            y
+            ) -> None:
+        """Raise ValueError if value y not allowed for key i."""
         valid_y = True
         if hasattr(self, 'allowed_values') and i in self.allowed_values:
             valid_y = False
@@ -978,7 +994,6 @@ class TypedDict(
                 f' assigned value: {y}\n'
                 'Admissible values are:\n\t'
                 f'{self.allowed_values[i]}')
-        super().__setitem__(i, y)
 
     def __str__(self):
         return f'TypedDict({dict.__str__(self)})'
@@ -994,10 +1009,14 @@ class TypedDict(
                     'update expected at most 1 arguments, '
                     f'got {len(args)}')
             other = dict(args[0])
-            for key in other:
-                self[key] = other[key]
-        for key in kwargs:
-            self[key] = kwargs[key]
+        else:
+            other = dict()
+        other.update(kwargs)
+        # check all before changing any
+        for key in other:
+            self._check_value(key, other[key])
+        for key in other:
+            self[key] = other[key]
 
     def setdefault(
             self,
-- 
2.43.0


From 721449afde8987ff677090caceaa748d449b0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 019/110] fix: keep all items of an iterator in unique

---
 tulip/transys/mathset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 2f83f3b..99682bd 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -732,6 +732,8 @@ def unique(
         - If iterable contains unhashable item,
             then returns `list` of unique elements.
     """
+    # an iterator can be traversed only once
+    iterable = list(iterable)
     # hashable items ?
     try:
         return set(iterable)
-- 
2.43.0


From b91eda3aa75956b5dd861eead778540862956fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 020/110] fix: check unhashable values in
 TypedDict.is_consistent

---
 tulip/transys/mathset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 99682bd..f4a2357 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -1055,7 +1055,8 @@ class TypedDict(
         points to can invalidate the assigned values.
         """
         for k, v in self.items():
-            values = self.allowed_values.get(k)
-            if values is not None and v not in values:
+            try:
+                self._check_value(k, v)
+            except ValueError:
                 return False
         return True
-- 
2.43.0


From b87638b4cab9da8f1df101be717c139dc10c3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 021/110] fix: gridworlds that differ in some cells are not
 equal

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index bb35f2a..ba7e64e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -133,7 +133,7 @@ class GridWorld:
                 # the two is undefined.
         if self.size() != other.size():
             return False
-        if np.all(self.W != other.W):
+        if np.any(self.W != other.W):
             return False
         if self.goal_list != other.goal_list:
             return False
-- 
2.43.0


From 170a68366ad33f9c2c921fe913f27976524d0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 022/110] fix: use the given prefix in unoccupied and
 narrow_passage

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index ba7e64e..034ecaa 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1360,7 +1360,7 @@ def unoccupied(
         raise TypeError("invalid gridworld size.")
     return GridWorld(
         f'{size[0]} {size[1]}',
-        prefix="Y")
+        prefix=prefix)
 
 
 def add_trolls(
-- 
2.43.0


From 23f35b8cdd2038381c16263c586309f00d4d4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 023/110] fix: copy all of a gridworld, including goals that
 are initial cells

---
 tulip/gridworld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 034ecaa..93739d5 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -215,9 +215,13 @@ class GridWorld:
             return out
 
     def __copy__(self):
-        return GridWorld(
-            self.dumps(),
-            prefix=self.prefix)
+        gw = GridWorld(prefix=self.prefix)
+        if self.W is not None:
+            gw.W = self.W.copy()
+        gw.init_list = list(self.init_list)
+        gw.goal_list = list(self.goal_list)
+        gw.offset = self.offset
+        return gw
 
     def copy(self) -> 'GridWorld':
         """Deep-copy GridWorld instance.
-- 
2.43.0


From ce1d063ac3b6a2ea9cbb637dc46a04971d870197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 024/110] fix: subworlds that do not overlap the gridworld are
 occupied

---
 tulip/gridworld.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 93739d5..9ff42bf 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -820,18 +820,15 @@ class GridWorld:
             sub = GridWorld(prefix=prefix)
             sub.W = np.ones(size)
             self_offset = (max(offset[0], 0), max(offset[1], 0))
-            self_offset = (min(self_offset[0], self.W.shape[
-                           0] - 1), min(self_offset[1], self.W.shape[1] - 1))
             sub_offset = (max(-offset[0], 0), max(-offset[1], 0))
-            sub_offset = (min(sub_offset[0], sub.W.shape[
-                          0] - 1), min(sub_offset[1], sub.W.shape[1] - 1))
+            # the subworld can be entirely outside
             actual_size = (
-                min(size[0],
+                max(0, min(size[0],
                     self.W.shape[0] - self_offset[0],
-                    sub.W.shape[0] - sub_offset[0]),
-                min(size[1],
+                    sub.W.shape[0] - sub_offset[0])),
+                max(0, min(size[1],
                     self.W.shape[1] - self_offset[1],
-                    sub.W.shape[1] - sub_offset[1]))
+                    sub.W.shape[1] - sub_offset[1])))
             sub.W[sub_offset[0]:(sub_offset[0] + actual_size[0]),
                   sub_offset[1]:(sub_offset[1] + actual_size[1])] = self.W[
                 self_offset[0]:(self_offset[0] + actual_size[0]),
-- 
2.43.0


From 4436ad97b888374e6045dfd45fa52f40be8fd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 025/110] fix: use the same names and values for trolls in all
 parts of the specification

---
 tulip/gridworld.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 9ff42bf..a635b8a 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1452,14 +1452,18 @@ def add_trolls(
                                    center[1] - t_offset[1])]
         if get_moves_lists:
             moves_N.append([])
+            # integer variables are relative to the trollspace
+            state_offset = (0, 0) if nonbool else t_offset
             for i in range(t_size[0]):
                 for j in range(t_size[1]):
+                    if not X[-1][1].is_empty((i, j)):
+                        continue
                     moves_N[-1].append(
                         X[-1][1].state((i, j),
-                        offset=t_offset, nonbool=nonbool))
+                        offset=state_offset, nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
-        spec |= Xi[1].spec(offset=(-Xi[0][0], -Xi[0][1]),
+        spec |= Xi[1].spec(offset=Xi[0],
                            controlled_dyn=False, nonbool=nonbool)
     # Mutual exclusion
     for i in range(Y.size()[0]):
-- 
2.43.0


From 523de40cf33888d7624a3aa5613cc56d3c6d7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 026/110] fix: variable names contain only letters, digits, and
 _.:

---
 tulip/spec/lexyacc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/lexyacc.py b/tulip/spec/lexyacc.py
index fdb4d1d..8690b8b 100644
--- a/tulip/spec/lexyacc.py
+++ b/tulip/spec/lexyacc.py
@@ -124,7 +124,7 @@ class Lexer:
     def t_NAME(self, t):
         r"""
         [A-Za-z_]
-        [A-za-z0-9._:]*
+        [A-Za-z0-9._:]*
         """
         t.value = self.values.get(t.value, t.value)
         t.type = self.reserved.get(t.value, 'NAME')
-- 
2.43.0


From b790c913760c753150712563ca42e2a876d557c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 027/110] fix: raise error for unknown characters in formulas,
 instead of omitting them

---
 tulip/spec/lexyacc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tulip/spec/lexyacc.py b/tulip/spec/lexyacc.py
index 8690b8b..a7fc718 100644
--- a/tulip/spec/lexyacc.py
+++ b/tulip/spec/lexyacc.py
@@ -200,7 +200,7 @@ class Lexer:
     t_DQUOTES = r' " '
     t_PRIME = r" ' "
     # skipped characters
-    t_ignore = ''.join(['\x20', '\t'])
+    t_ignore = ''.join(['\x20', '\t', '\r'])
 
     def t_comment(self, t):
         r' \# .* '
@@ -211,10 +211,9 @@ class Lexer:
         t.lexer.lineno += t.value.count('\n')
 
     def t_error(self, t):
-        warnings.warn(
+        raise Exception(
             'Unknown character '
             f'`{t.value[0]}`')
-        t.lexer.skip(1)
 
     def build(
             self,
-- 
2.43.0


From 8777df4c822da83a2f99763a086f35d080b8a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 028/110] fix: represent alternative spellings of operators by
 the same operator in syntax trees

---
 tulip/spec/lexyacc.py | 56 +++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/tulip/spec/lexyacc.py b/tulip/spec/lexyacc.py
index a7fc718..1b25d95 100644
--- a/tulip/spec/lexyacc.py
+++ b/tulip/spec/lexyacc.py
@@ -161,36 +161,56 @@ class Lexer:
         t.value = '|'
         return t
 
-    t_NOT = r'''
+    def t_BIMP(self, t):
+        r"""
+          < \- >
+        | <=>
+        """
+        t.value = '<->'
+        return t
+
+    def t_IMP(self, t):
+        r"""
+          \- >
+        | =>
+        """
+        t.value = '->'
+        return t
+
+    def t_NEQUALS(self, t):
+        r"""
+          !=
+        | /=
+        """
+        t.value = '!='
+        return t
+
+    def t_LE(self, t):
+        r"""
+          <=
+        | =<
+        """
+        t.value = '<='
+        return t
+
+    def t_NOT(self, t):
+        r"""
           !
         | \~
-        '''
+        """
+        t.value = '!'
+        return t
+
     t_XOR = r' \^ '
     t_EQUALS = r' = '
         # a declarative language
         # has no assignment
-    t_NEQUALS = r'''
-          !=
-        | /=
-        '''
     t_LT = r' < '
-    t_LE = r'''
-          <=
-        | =<
-        '''
     t_GT = r' >= '
     t_GE = r' > '
     t_LPAREN = r' \( '
     t_RPAREN = r' \) '
     t_NUMBER = r' \d+ '
-    t_IMP = r'''
-          \- >
-        | =>
-        '''
-    t_BIMP = r'''
-          < \- >
-        | <=>
-        '''
     t_PLUS = r' \+ '
     t_MINUS = r' \- '
     t_TIMES = r' \* '
-- 
2.43.0


From b82d78dbabd56550cb7f7eb7e8921f1f22789141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 029/110] fix: print string constants in quotes, so that they
 are parsed again as strings

---
 tulip/spec/ast.py            | 3 +++
 tulip/spec/transformation.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/spec/ast.py b/tulip/spec/ast.py
index 4f681e4..fc0224f 100644
--- a/tulip/spec/ast.py
+++ b/tulip/spec/ast.py
@@ -338,6 +338,9 @@ class StrSpec(
         super().__init__(value)
         self.type = 'str'
 
+    def flatten(self, *arg, **kw):
+        return f'"{self.value}"'
+
 
 class ComparatorSpec(
         BinarySpec):
diff --git a/tulip/spec/transformation.py b/tulip/spec/transformation.py
index 8220e34..ffb2057 100644
--- a/tulip/spec/transformation.py
+++ b/tulip/spec/transformation.py
@@ -449,7 +449,7 @@ def infer_constants(
             continue
         # Var (so NAME token) but not a variable
         # turn it into a string constant
-        old2new[u] = _ast.nodes.Str(f'"{u}"')
+        old2new[u] = _ast.nodes.Str(str(u))
     nx.relabel_nodes(tree, old2new, copy=False)
     return tree.to_recursive_ast().flatten()
 
-- 
2.43.0


From 4492e77cbb7970d1eb1ac3ea64f473ac40dda4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 030/110] fix: separate operators that replace full names from
 adjacent text

---
 tulip/spec/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/parser.py b/tulip/spec/parser.py
index 1d9ba46..4f45e6d 100644
--- a/tulip/spec/parser.py
+++ b/tulip/spec/parser.py
@@ -104,6 +104,6 @@ def _replace_full_name_operators(
     for name, symbol in subs:
         formula = re.sub(
             rf'(?i)\b{name}\b',
-            symbol,
+            f' {symbol} ',
             formula)
     return formula
-- 
2.43.0


From 16c235f8b6c9d0bea806f4d2dab6c2ce3bd77a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 031/110] fix: translate conjunction, disjunction, xor, next to
 Promela operators of LTL

---
 tulip/spec/translation.py | 55 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index 9a75f68..12462f9 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -240,9 +240,62 @@ def make_promela_nodes() -> Nodes:
             '<>',
         'R':
             'V',
+        '&':
+            '&&',
+        '|':
+            '||',
         '=':
             '=='})
-    return _ast.make_fol_nodes(opmap)
+    # neither is an operator in LTL formulas of Promela
+    opmap.pop('ite')
+    opmap.pop('<<>>')
+    nodes = _ast.make_fol_nodes(opmap)
+    class Binary(
+            nodes.Binary):
+        def flatten(self, *arg, **kw):
+            # in Promela `^` is bitwise
+            if self.operator == '^':
+                equiv = type(self)('<->', *self.operands)
+                return f'( ! {equiv.flatten(*arg, **kw)} )'
+            return super().flatten(*arg, **kw)
+    nodes.Binary = Binary
+    nodes.Comparator = _lift_next(nodes.Comparator)
+    return nodes
+
+
+def _lift_next(comparator):
+    """Return `comparator` nodes with "next" only outside.
+
+    For languages where "next" applies to formulas,
+    but not to terms.
+    """
+    def depth(u, n=0):
+        # numbers of "next" operators above each variable
+        if hasattr(u, 'operands'):
+            n += u.operator == 'X'
+            return set().union(*(depth(v, n) for v in u.operands))
+        return {n} if u.type == 'var' else set()
+    def unprimed(u):
+        if not hasattr(u, 'operands'):
+            return u
+        if u.operator == 'X':
+            return unprimed(u.operands[0])
+        return type(u)(u.operator, *map(unprimed, u.operands))
+    class Comparator(
+            comparator):
+        def flatten(self, *arg, **kw):
+            depths = depth(self)
+            if not depths - {0}:
+                return super().flatten(*arg, **kw)
+            if len(depths) > 1:
+                raise ValueError(
+                    'comparison between values in different states: '
+                    f'{self}')
+            n, = depths
+            c = comparator(self.operator, *map(unprimed, self.operands))
+            op = self.opmap['X']
+            return f'( {op} ' * n + c.flatten(*arg, **kw) + ' )' * n
+    return Comparator
 
 
 def make_smv_nodes() -> Nodes:
-- 
2.43.0


From c6a5a7a610ed98c6daa3b09e168ec42b1ccff4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 032/110] fix: define all operators for translation to SMV

---
 tulip/spec/translation.py | 44 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index 12462f9..df819e9 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -300,6 +300,22 @@ def _lift_next(comparator):
 
 def make_smv_nodes() -> Nodes:
     opmap = {
+        'False':
+            'FALSE',
+        'True':
+            'TRUE',
+        '!':
+            '!',
+        '|':
+            '|',
+        '&':
+            '&',
+        '->':
+            '->',
+        '<->':
+            '<->',
+        '^':
+            'xor',
         'X':
             'X',
         'G':
@@ -309,8 +325,32 @@ def make_smv_nodes() -> Nodes:
         'U':
             'U',
         'R':
-            'V'}
-    return _ast.make_fol_nodes(opmap)
+            'V',
+        'V':
+            'V',
+        '<':
+            '<',
+        '<=':
+            '<=',
+        '=':
+            '=',
+        '>=':
+            '>=',
+        '>':
+            '>',
+        '!=':
+            '!=',
+        '+':
+            '+',
+        '-':
+            '-',
+        '*':
+            '*',
+        '/':
+            '/'}
+    nodes = _ast.make_fol_nodes(opmap)
+    nodes.Comparator = _lift_next(nodes.Comparator)
+    return nodes
 
 
 def make_wring_nodes() -> Nodes:
-- 
2.43.0


From efbca5439ba2f60c7f449d513a4701afaf5d8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 033/110] fix: xor operator in translation to Wring

---
 tulip/spec/translation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index df819e9..90b23a8 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -369,7 +369,7 @@ def make_wring_nodes() -> Nodes:
             '->',
         '<->':
             '<->',
-        'xor':
+        '^':
             '^',
         'G':
             'G',
-- 
2.43.0


From 1bc58c1073c0bfeaa68567cdc38e5faa2644eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 034/110] fix: translate multiplication to Python

---
 tulip/spec/translation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index 90b23a8..a9eb877 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -437,7 +437,9 @@ def make_python_nodes() -> Nodes:
         '+':
             '+',
         '-':
-            '-'}
+            '-',
+        '*':
+            '*'}
     nodes = _ast.make_fol_nodes(opmap)
     class Imp(
             nodes.Binary):
-- 
2.43.0


From 33815ff803aa0781296cd1c431510d98625bc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 035/110] fix: raise for nested next in translation to gr1c and
 slugs

---
 tulip/spec/translation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index a9eb877..40a64a3 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -174,6 +174,9 @@ def make_gr1c_nodes(
             nodes.Unary):
         def flatten(self, *arg, **kw):
             if self.operator == 'X':
+                if kw.get('prime'):
+                    raise ValueError(
+                        f'nested "next" operators: {self}')
                 kw.update(prime=True)
                 return self.operands[0].flatten(*arg, **kw)
             return super().flatten(*arg, **kw)
-- 
2.43.0


From 9ee6debe70036f7cd5395a9a1251478d8210e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 036/110] fix: declare string variables as integers in
 translation to slugs

---
 tulip/spec/translation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index 40a64a3..3b973e1 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -680,6 +680,9 @@ def _format_slugs_vars(
             a.append(var)
         elif isinstance(dom, tuple) and len(dom) == 2:
             a.append(f'{var}: {dom[0]}...{dom[1]}')
+        elif isinstance(dom, list) and len(dom) > 0:
+            int_dom = convert_domain(dom)
+            a.append(f'{var}: {int_dom[0]}...{int_dom[1]}')
         else:
             raise ValueError(
                 f'unknown domain type: {dom}')
-- 
2.43.0


From 61abd438182be6652b8042add9f05116dbb4dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 037/110] fix: substitute values for variables in all clauses

---
 tulip/spec/form.py           | 1 +
 tulip/spec/transformation.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index e46b52c..2d46aba 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -836,6 +836,7 @@ class GRSpec(
             keyed by original clause (before substitution).
         """
         _logger.info('substitute values for variables...')
+        self.parse()
         a = copy.deepcopy(self._ast)
         for formula, tree in a.items():
             g = tx.Tree.from_recursive_ast(tree)
diff --git a/tulip/spec/transformation.py b/tulip/spec/transformation.py
index ffb2057..0fb3035 100644
--- a/tulip/spec/transformation.py
+++ b/tulip/spec/transformation.py
@@ -296,9 +296,9 @@ def sub_values(
         val = var_values[u.value]
         # instantiate appropriate value type
         if isinstance(val, bool):
-            v = _ast.nodes.Bool(val)
+            v = _ast.nodes.Bool(str(val))
         elif isinstance(val, int):
-            v = _ast.nodes.Num(val)
+            v = _ast.nodes.Num(str(val))
         elif isinstance(val, str):
             v = _ast.nodes.Str(val)
         else:
@@ -306,6 +306,7 @@ def sub_values(
         old2new[u] = v
     # replace variable by value
     nx.relabel_nodes(tree, old2new, copy=False)
+    tree.root = old2new.get(tree.root, tree.root)
 
 
 def sub_constants(
-- 
2.43.0


From 26d221e4b6a4c0606f1bf20665644130ddd137ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 038/110] fix: report string constants that are not values of
 the variable

---
 tulip/spec/transformation.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/tulip/spec/transformation.py b/tulip/spec/transformation.py
index 0fb3035..aa5cb29 100644
--- a/tulip/spec/transformation.py
+++ b/tulip/spec/transformation.py
@@ -251,31 +251,18 @@ def check_for_undefined_identifiers(
                 f'Undefined variable "{var}" missing from '
                 f'symbol table:\n\t{domains}\n'
                 f'in subformula:\n\t{tr}')
-        if u.type not in {'str', 'num'}:
+        if u.type != 'str':
             continue
-        # is a Const or Num
-        var, c = pair_node_to_var(tree, u)
-        if c.type == 'str':
-            dom = domains[var]
-            if not isinstance(dom, list):
-                raise Exception(
-                    f'String constant "{c}" assigned to non-string '
-                    f'variable "{var}" with domain:\n\t{dom}')
-            if c.value not in domains[var.value]:
-                raise ValueError(
-                    f'String constant "{c}" is not in the domain '
-                    f'of variable "{var}"')
-        if c.type == 'num':
-            dom = domains[var]
-            if not isinstance(dom, tuple):
-                raise Exception(
-                    f'Number: {c}, assigned to non-integer {c}'
-                    f'variable "{var}" with domain:\n\t{dom}')
-            if not dom[0] <= c.value <= dom[1]:
-                raise Exception(
-                    f'Integer variable "{var}", is assigned the '
-                    f'value: {c}, that is out of its domain:'
-                    f'{dom[0]} ... {dom[1]}')
+        var, _ = pair_node_to_var(tree, u)
+        dom = domains.get(var.value)
+        if not isinstance(dom, list):
+            raise ValueError(
+                f'String constant "{u}" assigned to non-string '
+                f'variable "{var}" with domain:\n\t{dom}')
+        if u.value not in dom:
+            raise ValueError(
+                f'String constant "{u}" is not in the domain '
+                f'of variable "{var}"')
 
 
 def sub_values(
-- 
2.43.0


From 054d7aa03fb3def5a823edc2440ca987676c8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 039/110] fix: raise if variables with different lists of
 strings are compared

---
 tulip/spec/transformation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tulip/spec/transformation.py b/tulip/spec/transformation.py
index aa5cb29..e755c4b 100644
--- a/tulip/spec/transformation.py
+++ b/tulip/spec/transformation.py
@@ -322,6 +322,19 @@ def sub_constants(
         # replace Const with Num
         old2new[u] = num
     nx.relabel_nodes(tree, old2new, copy=False)
+    # variables are compared as integers from now on
+    for u in tree:
+        if getattr(u, 'operator', None) not in ('=', '!='):
+            continue
+        doms = list()
+        for v in tree.successors(u):
+            while tree.succ.get(v):
+                v = next(iter(tree.successors(v)))
+            if v.type == 'var' and str(v) in var_str2int:
+                doms.append(var_str2int[str(v)])
+        if len(doms) == 2 and doms[0] != doms[1]:
+            raise ValueError(
+                f'comparison of variables with different domains: {u}')
     # _logger.info(f'result after substitution:\n\t{self}\n')
 
 
-- 
2.43.0


From cc6c21acdf57274151c2677d73590cf63555ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 040/110] fix: check liveness guarantees for primed variables

---
 tulip/spec/form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index 2d46aba..2043e4e 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -707,7 +707,7 @@ class GRSpec(
             self.env_prog,
             'liveness assumption')
         self._assert_no_primed(
-            self.env_prog,
+            self.sys_prog,
             'liveness guarantee')
         for f in self.env_safety:
             a = self.ast(f)
-- 
2.43.0


From 2b94debefcf743a6624740fd52d774acd8c119b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 041/110] fix: reject union of specifications with different
 owners of a variable

---
 tulip/spec/form.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index 2043e4e..9ecf658 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -778,6 +778,7 @@ class GRSpec(
                 raise ValueError('Mismatched variable domains')
         result.env_vars.update(other.env_vars)
         result.sys_vars.update(other.sys_vars)
+        result.check_vars()
         for x in self._parts:
             getattr(result, x).extend(getattr(other, x))
         return result
-- 
2.43.0


From 2b4b17065f57e4356306ab9d3d36a3da1c7906dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 042/110] fix: mode when opening LTL files

---
 tulip/spec/form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index 9ecf658..6f9790f 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -295,7 +295,8 @@ class LTL:
             file named "f" read-only.
         """
         if isinstance(f, str):
-            f = open(f, 'rU')
+            with open(f, 'r') as fd:
+                return LTL.loads(fd.read())
         return LTL.loads(f.read())
 
 
-- 
2.43.0


From 77a5c7eb5f282c87f0868d6a709f15759fea902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 043/110] fix: strip spaces around strings when loading domains

---
 tulip/spec/form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index 6f9790f..beb5ecf 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -269,7 +269,7 @@ class LTL:
                             try:
                                 variables[i][name].append(int(elem))
                             except ValueError:
-                                variables[i][name].append(str(elem))
+                                variables[i][name].append(elem.strip())
                         variables[i][name] = set(variables[i][name])
                     elif domain == 'boolean':
                         variables[i][name] = domain
-- 
2.43.0


From 4a372f9a28c1fa4a737c8baa9b0eda16dea2ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 044/110] fix: convert strings to integers anew after domains
 change

---
 tulip/spec/form.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index beb5ecf..eaed364 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -494,6 +494,7 @@ class GRSpec(
             'slugs':
                 dict()}
         self._bool_int = dict()
+        self._bool_int_domains = None
         self._parts = {
             x + y
             for x in {'env_', 'sys_'}
@@ -910,6 +911,10 @@ class GRSpec(
         vars_dict = dict(self.env_vars)
         vars_dict.update(self.sys_vars)
         fvars = {v: d for v, d in vars_dict.items() if isinstance(d, list)}
+        # domains changed since last conversion ?
+        if fvars != self._bool_int_domains:
+            self._bool_int.clear()
+            self._bool_int_domains = copy.deepcopy(fvars)
         # replace symbols by ints
         for p in self._parts:
             for x in getattr(self, p):
-- 
2.43.0


From 6b1d4ee1f39ace51787851a25571627de0cd3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 045/110] fix: dump the current variables of a specification

---
 tulip/spec/form.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index eaed364..ff37c21 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -615,6 +615,8 @@ class GRSpec(
                 bool=False
             ) -> str:
         self.formula = self.to_canon()
+        self.input_variables = self.env_vars
+        self.output_variables = self.sys_vars
         return LTL.dumps(self, timestamp=timestamp)
 
     @staticmethod
-- 
2.43.0


From 29ced8a11b1b0d6a7c716dc7da8640df592379b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 046/110] fix: reject weak until when splitting GR(1) formulas

---
 tulip/spec/gr1_fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/spec/gr1_fragment.py b/tulip/spec/gr1_fragment.py
index 5d2163e..708b1ca 100644
--- a/tulip/spec/gr1_fragment.py
+++ b/tulip/spec/gr1_fragment.py
@@ -271,7 +271,7 @@ def split_gr1(
             # not a GF
             d['G'].append(v)
     # assert only admissible temporal operators
-    ops = {'G', 'F', 'U', 'V', 'R'}
+    ops = {'G', 'F', 'U', 'V', 'R', 'W'}
     operators = {'G': ops}
     ops = set(ops)
     ops.add('X')
-- 
2.43.0


From 1bcb5c1218ffccfab2a32082c368dd9508977c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 047/110] fix: omit empty formulas when converting strings to
 GR(1) specifications

---
 tulip/spec/gr1_fragment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/spec/gr1_fragment.py b/tulip/spec/gr1_fragment.py
index 708b1ca..8c13507 100644
--- a/tulip/spec/gr1_fragment.py
+++ b/tulip/spec/gr1_fragment.py
@@ -192,6 +192,10 @@ def str_to_grspec(
     env, sys = t.operands
     d = {'assume': split_gr1(env),
          'assert': split_gr1(sys)}
+    # `split_gr1` represents absence of clauses by an empty string
+    for parts in d.values():
+        for k, v in parts.items():
+            parts[k] = [x for x in v if x]
     return _spec.GRSpec(
         env_init=d['assume']['init'],
         env_safety=d['assume']['G'],
-- 
2.43.0


From 193a2713bc47b33acc43b4a6e18d1690dac56c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 048/110] fix: return all new successors in on-the-fly products

---
 tulip/transys/products.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 9984e12..c4d1525 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -144,8 +144,7 @@ class OnTheFlyProductAutomaton(
                 new_accepting)
         # new_sqs = {x for x in next_sqs if x not in self}
         _logger.debug(f'next product states: {next_sqs}')
-        _logger.debug(f'new unvisited product states: {new_sqs}')
-        return new_sqs
+        return next_sqs
 
     def add_all_states(self):
         """Iterate `add_successors` until all states are added.
-- 
2.43.0


From 4540bee897209acccb6e8f4f9ea6c7adcc084c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 049/110] fix: label transitions of products with the actions
 of the transition system

---
 tulip/transys/products.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c4d1525..45a01cf 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -211,7 +211,9 @@ def ts_ba_sync_prod(
     prodts = transys.FiniteTransitionSystem()
     prodts.name = prodts_name
     prodts.atomic_propositions.add_from(ba.states())
-    prodts.sys_actions.add_from(fts.actions)
+    for action_type, values in fts.actions.items():
+        if action_type in prodts.actions:
+            prodts.actions[action_type].add_from(values)
     # construct initial states of product automaton
     s0s = set(fts.states.initial)
     q0s = set(ba.states.initial)
@@ -369,7 +371,7 @@ def find_prod_succ(
                 else:
                     product.transitions.add(
                         prev_sq, new_sq,
-                        actions=sublabel_values['actions'])
+                        attr_dict=sublabel_values)
     return (next_sqs, new_accepting)
 
 
-- 
2.43.0


From 30a9b7aa7069c160f904762f45691875fd6cd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 050/110] fix: find the label of the target state in products

---
 tulip/transys/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 45a01cf..1cb7c30 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -425,7 +425,7 @@ def ba_ts_sync_prod(
         _logger.debug(
             f'prod_TS: to_state =\n\t{to_state}\n'
             f'TS: ts_to_state =\n\t{ts_to_state}')
-        state_label_pairs = transition_system.states.find(ts_to_state)
+        state_label_pairs = transition_system.states.find([ts_to_state])
         ts_to_state_, transition_label_dict = state_label_pairs[0]
         transition_label_value = transition_label_dict['ap']
         prod_ba.transitions.add(
-- 
2.43.0


From c36be20e3cbdeb18068e11b41df776c505f9ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 051/110] fix: add each transition of products once

---
 tulip/transys/products.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 1cb7c30..2c5ea1d 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -296,8 +296,12 @@ def find_ba_succ(
     _logger.debug(f"Next state's label:\t{ap}")
     enabled_ba_trans = ba.transitions.find(
         [q], with_attr_dict=Sigma_dict)
-    enabled_ba_trans += ba.transitions.find(
-        [q], letter={True})
+    # once for each next state
+    next_qs = {v for _, v, _ in enabled_ba_trans}
+    enabled_ba_trans += [
+        t for t in ba.transitions.find(
+            [q], letter={True})
+        if t[1] not in next_qs]
     _logger.debug(
         'Enabled BA transitions:\n\t'
         f'{enabled_ba_trans}')
-- 
2.43.0


From a4f82f47b8108ddc18ffab7672c8a31a185e62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:06 +0000
Subject: [PATCH 052/110] fix: compare sets of propositions in simulation
 abstractions

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 33d8e0e..1fc726d 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1295,7 +1295,7 @@ def simu_abstract(
     hash_ap = dict()
         # map ap to cells in Part
     for node in G:
-        ap = repr(G.nodes[node]['ap'])
+        ap = frozenset(G.nodes[node]['ap'])
         if ap not in S0:
             S0[ap] = set()
             hash_ap[ap] = set()
-- 
2.43.0


From 45cbe34856806c09c042d598f9f1566d63274e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:48 +0000
Subject: [PATCH 053/110] revert the changes to tulip/spec

---
 tulip/spec/ast.py            |   3 -
 tulip/spec/form.py           |  16 +----
 tulip/spec/gr1_fragment.py   |   6 +-
 tulip/spec/lexyacc.py        |  63 +++++++-------------
 tulip/spec/parser.py         |   2 +-
 tulip/spec/transformation.py |  55 +++++++++--------
 tulip/spec/translation.py    | 111 ++---------------------------------
 7 files changed, 59 insertions(+), 197 deletions(-)

diff --git a/tulip/spec/ast.py b/tulip/spec/ast.py
index fc0224f..4f681e4 100644
--- a/tulip/spec/ast.py
+++ b/tulip/spec/ast.py
@@ -338,9 +338,6 @@ class StrSpec(
         super().__init__(value)
         self.type = 'str'
 
-    def flatten(self, *arg, **kw):
-        return f'"{self.value}"'
-
 
 class ComparatorSpec(
         BinarySpec):
diff --git a/tulip/spec/form.py b/tulip/spec/form.py
index ff37c21..e46b52c 100644
--- a/tulip/spec/form.py
+++ b/tulip/spec/form.py
@@ -269,7 +269,7 @@ class LTL:
                             try:
                                 variables[i][name].append(int(elem))
                             except ValueError:
-                                variables[i][name].append(elem.strip())
+                                variables[i][name].append(str(elem))
                         variables[i][name] = set(variables[i][name])
                     elif domain == 'boolean':
                         variables[i][name] = domain
@@ -295,8 +295,7 @@ class LTL:
             file named "f" read-only.
         """
         if isinstance(f, str):
-            with open(f, 'r') as fd:
-                return LTL.loads(fd.read())
+            f = open(f, 'rU')
         return LTL.loads(f.read())
 
 
@@ -494,7 +493,6 @@ class GRSpec(
             'slugs':
                 dict()}
         self._bool_int = dict()
-        self._bool_int_domains = None
         self._parts = {
             x + y
             for x in {'env_', 'sys_'}
@@ -615,8 +613,6 @@ class GRSpec(
                 bool=False
             ) -> str:
         self.formula = self.to_canon()
-        self.input_variables = self.env_vars
-        self.output_variables = self.sys_vars
         return LTL.dumps(self, timestamp=timestamp)
 
     @staticmethod
@@ -711,7 +707,7 @@ class GRSpec(
             self.env_prog,
             'liveness assumption')
         self._assert_no_primed(
-            self.sys_prog,
+            self.env_prog,
             'liveness guarantee')
         for f in self.env_safety:
             a = self.ast(f)
@@ -782,7 +778,6 @@ class GRSpec(
                 raise ValueError('Mismatched variable domains')
         result.env_vars.update(other.env_vars)
         result.sys_vars.update(other.sys_vars)
-        result.check_vars()
         for x in self._parts:
             getattr(result, x).extend(getattr(other, x))
         return result
@@ -841,7 +836,6 @@ class GRSpec(
             keyed by original clause (before substitution).
         """
         _logger.info('substitute values for variables...')
-        self.parse()
         a = copy.deepcopy(self._ast)
         for formula, tree in a.items():
             g = tx.Tree.from_recursive_ast(tree)
@@ -913,10 +907,6 @@ class GRSpec(
         vars_dict = dict(self.env_vars)
         vars_dict.update(self.sys_vars)
         fvars = {v: d for v, d in vars_dict.items() if isinstance(d, list)}
-        # domains changed since last conversion ?
-        if fvars != self._bool_int_domains:
-            self._bool_int.clear()
-            self._bool_int_domains = copy.deepcopy(fvars)
         # replace symbols by ints
         for p in self._parts:
             for x in getattr(self, p):
diff --git a/tulip/spec/gr1_fragment.py b/tulip/spec/gr1_fragment.py
index 8c13507..5d2163e 100644
--- a/tulip/spec/gr1_fragment.py
+++ b/tulip/spec/gr1_fragment.py
@@ -192,10 +192,6 @@ def str_to_grspec(
     env, sys = t.operands
     d = {'assume': split_gr1(env),
          'assert': split_gr1(sys)}
-    # `split_gr1` represents absence of clauses by an empty string
-    for parts in d.values():
-        for k, v in parts.items():
-            parts[k] = [x for x in v if x]
     return _spec.GRSpec(
         env_init=d['assume']['init'],
         env_safety=d['assume']['G'],
@@ -275,7 +271,7 @@ def split_gr1(
             # not a GF
             d['G'].append(v)
     # assert only admissible temporal operators
-    ops = {'G', 'F', 'U', 'V', 'R', 'W'}
+    ops = {'G', 'F', 'U', 'V', 'R'}
     operators = {'G': ops}
     ops = set(ops)
     ops.add('X')
diff --git a/tulip/spec/lexyacc.py b/tulip/spec/lexyacc.py
index 1b25d95..fdb4d1d 100644
--- a/tulip/spec/lexyacc.py
+++ b/tulip/spec/lexyacc.py
@@ -124,7 +124,7 @@ class Lexer:
     def t_NAME(self, t):
         r"""
         [A-Za-z_]
-        [A-Za-z0-9._:]*
+        [A-za-z0-9._:]*
         """
         t.value = self.values.get(t.value, t.value)
         t.type = self.reserved.get(t.value, 'NAME')
@@ -161,56 +161,36 @@ class Lexer:
         t.value = '|'
         return t
 
-    def t_BIMP(self, t):
-        r"""
-          < \- >
-        | <=>
-        """
-        t.value = '<->'
-        return t
-
-    def t_IMP(self, t):
-        r"""
-          \- >
-        | =>
-        """
-        t.value = '->'
-        return t
-
-    def t_NEQUALS(self, t):
-        r"""
-          !=
-        | /=
-        """
-        t.value = '!='
-        return t
-
-    def t_LE(self, t):
-        r"""
-          <=
-        | =<
-        """
-        t.value = '<='
-        return t
-
-    def t_NOT(self, t):
-        r"""
+    t_NOT = r'''
           !
         | \~
-        """
-        t.value = '!'
-        return t
-
+        '''
     t_XOR = r' \^ '
     t_EQUALS = r' = '
         # a declarative language
         # has no assignment
+    t_NEQUALS = r'''
+          !=
+        | /=
+        '''
     t_LT = r' < '
+    t_LE = r'''
+          <=
+        | =<
+        '''
     t_GT = r' >= '
     t_GE = r' > '
     t_LPAREN = r' \( '
     t_RPAREN = r' \) '
     t_NUMBER = r' \d+ '
+    t_IMP = r'''
+          \- >
+        | =>
+        '''
+    t_BIMP = r'''
+          < \- >
+        | <=>
+        '''
     t_PLUS = r' \+ '
     t_MINUS = r' \- '
     t_TIMES = r' \* '
@@ -220,7 +200,7 @@ class Lexer:
     t_DQUOTES = r' " '
     t_PRIME = r" ' "
     # skipped characters
-    t_ignore = ''.join(['\x20', '\t', '\r'])
+    t_ignore = ''.join(['\x20', '\t'])
 
     def t_comment(self, t):
         r' \# .* '
@@ -231,9 +211,10 @@ class Lexer:
         t.lexer.lineno += t.value.count('\n')
 
     def t_error(self, t):
-        raise Exception(
+        warnings.warn(
             'Unknown character '
             f'`{t.value[0]}`')
+        t.lexer.skip(1)
 
     def build(
             self,
diff --git a/tulip/spec/parser.py b/tulip/spec/parser.py
index 4f45e6d..1d9ba46 100644
--- a/tulip/spec/parser.py
+++ b/tulip/spec/parser.py
@@ -104,6 +104,6 @@ def _replace_full_name_operators(
     for name, symbol in subs:
         formula = re.sub(
             rf'(?i)\b{name}\b',
-            f' {symbol} ',
+            symbol,
             formula)
     return formula
diff --git a/tulip/spec/transformation.py b/tulip/spec/transformation.py
index e755c4b..8220e34 100644
--- a/tulip/spec/transformation.py
+++ b/tulip/spec/transformation.py
@@ -251,18 +251,31 @@ def check_for_undefined_identifiers(
                 f'Undefined variable "{var}" missing from '
                 f'symbol table:\n\t{domains}\n'
                 f'in subformula:\n\t{tr}')
-        if u.type != 'str':
+        if u.type not in {'str', 'num'}:
             continue
-        var, _ = pair_node_to_var(tree, u)
-        dom = domains.get(var.value)
-        if not isinstance(dom, list):
-            raise ValueError(
-                f'String constant "{u}" assigned to non-string '
-                f'variable "{var}" with domain:\n\t{dom}')
-        if u.value not in dom:
-            raise ValueError(
-                f'String constant "{u}" is not in the domain '
-                f'of variable "{var}"')
+        # is a Const or Num
+        var, c = pair_node_to_var(tree, u)
+        if c.type == 'str':
+            dom = domains[var]
+            if not isinstance(dom, list):
+                raise Exception(
+                    f'String constant "{c}" assigned to non-string '
+                    f'variable "{var}" with domain:\n\t{dom}')
+            if c.value not in domains[var.value]:
+                raise ValueError(
+                    f'String constant "{c}" is not in the domain '
+                    f'of variable "{var}"')
+        if c.type == 'num':
+            dom = domains[var]
+            if not isinstance(dom, tuple):
+                raise Exception(
+                    f'Number: {c}, assigned to non-integer {c}'
+                    f'variable "{var}" with domain:\n\t{dom}')
+            if not dom[0] <= c.value <= dom[1]:
+                raise Exception(
+                    f'Integer variable "{var}", is assigned the '
+                    f'value: {c}, that is out of its domain:'
+                    f'{dom[0]} ... {dom[1]}')
 
 
 def sub_values(
@@ -283,9 +296,9 @@ def sub_values(
         val = var_values[u.value]
         # instantiate appropriate value type
         if isinstance(val, bool):
-            v = _ast.nodes.Bool(str(val))
+            v = _ast.nodes.Bool(val)
         elif isinstance(val, int):
-            v = _ast.nodes.Num(str(val))
+            v = _ast.nodes.Num(val)
         elif isinstance(val, str):
             v = _ast.nodes.Str(val)
         else:
@@ -293,7 +306,6 @@ def sub_values(
         old2new[u] = v
     # replace variable by value
     nx.relabel_nodes(tree, old2new, copy=False)
-    tree.root = old2new.get(tree.root, tree.root)
 
 
 def sub_constants(
@@ -322,19 +334,6 @@ def sub_constants(
         # replace Const with Num
         old2new[u] = num
     nx.relabel_nodes(tree, old2new, copy=False)
-    # variables are compared as integers from now on
-    for u in tree:
-        if getattr(u, 'operator', None) not in ('=', '!='):
-            continue
-        doms = list()
-        for v in tree.successors(u):
-            while tree.succ.get(v):
-                v = next(iter(tree.successors(v)))
-            if v.type == 'var' and str(v) in var_str2int:
-                doms.append(var_str2int[str(v)])
-        if len(doms) == 2 and doms[0] != doms[1]:
-            raise ValueError(
-                f'comparison of variables with different domains: {u}')
     # _logger.info(f'result after substitution:\n\t{self}\n')
 
 
@@ -450,7 +449,7 @@ def infer_constants(
             continue
         # Var (so NAME token) but not a variable
         # turn it into a string constant
-        old2new[u] = _ast.nodes.Str(str(u))
+        old2new[u] = _ast.nodes.Str(f'"{u}"')
     nx.relabel_nodes(tree, old2new, copy=False)
     return tree.to_recursive_ast().flatten()
 
diff --git a/tulip/spec/translation.py b/tulip/spec/translation.py
index 3b973e1..9a75f68 100644
--- a/tulip/spec/translation.py
+++ b/tulip/spec/translation.py
@@ -174,9 +174,6 @@ def make_gr1c_nodes(
             nodes.Unary):
         def flatten(self, *arg, **kw):
             if self.operator == 'X':
-                if kw.get('prime'):
-                    raise ValueError(
-                        f'nested "next" operators: {self}')
                 kw.update(prime=True)
                 return self.operands[0].flatten(*arg, **kw)
             return super().flatten(*arg, **kw)
@@ -243,82 +240,13 @@ def make_promela_nodes() -> Nodes:
             '<>',
         'R':
             'V',
-        '&':
-            '&&',
-        '|':
-            '||',
         '=':
             '=='})
-    # neither is an operator in LTL formulas of Promela
-    opmap.pop('ite')
-    opmap.pop('<<>>')
-    nodes = _ast.make_fol_nodes(opmap)
-    class Binary(
-            nodes.Binary):
-        def flatten(self, *arg, **kw):
-            # in Promela `^` is bitwise
-            if self.operator == '^':
-                equiv = type(self)('<->', *self.operands)
-                return f'( ! {equiv.flatten(*arg, **kw)} )'
-            return super().flatten(*arg, **kw)
-    nodes.Binary = Binary
-    nodes.Comparator = _lift_next(nodes.Comparator)
-    return nodes
-
-
-def _lift_next(comparator):
-    """Return `comparator` nodes with "next" only outside.
-
-    For languages where "next" applies to formulas,
-    but not to terms.
-    """
-    def depth(u, n=0):
-        # numbers of "next" operators above each variable
-        if hasattr(u, 'operands'):
-            n += u.operator == 'X'
-            return set().union(*(depth(v, n) for v in u.operands))
-        return {n} if u.type == 'var' else set()
-    def unprimed(u):
-        if not hasattr(u, 'operands'):
-            return u
-        if u.operator == 'X':
-            return unprimed(u.operands[0])
-        return type(u)(u.operator, *map(unprimed, u.operands))
-    class Comparator(
-            comparator):
-        def flatten(self, *arg, **kw):
-            depths = depth(self)
-            if not depths - {0}:
-                return super().flatten(*arg, **kw)
-            if len(depths) > 1:
-                raise ValueError(
-                    'comparison between values in different states: '
-                    f'{self}')
-            n, = depths
-            c = comparator(self.operator, *map(unprimed, self.operands))
-            op = self.opmap['X']
-            return f'( {op} ' * n + c.flatten(*arg, **kw) + ' )' * n
-    return Comparator
+    return _ast.make_fol_nodes(opmap)
 
 
 def make_smv_nodes() -> Nodes:
     opmap = {
-        'False':
-            'FALSE',
-        'True':
-            'TRUE',
-        '!':
-            '!',
-        '|':
-            '|',
-        '&':
-            '&',
-        '->':
-            '->',
-        '<->':
-            '<->',
-        '^':
-            'xor',
         'X':
             'X',
         'G':
@@ -328,32 +256,8 @@ def make_smv_nodes() -> Nodes:
         'U':
             'U',
         'R':
-            'V',
-        'V':
-            'V',
-        '<':
-            '<',
-        '<=':
-            '<=',
-        '=':
-            '=',
-        '>=':
-            '>=',
-        '>':
-            '>',
-        '!=':
-            '!=',
-        '+':
-            '+',
-        '-':
-            '-',
-        '*':
-            '*',
-        '/':
-            '/'}
-    nodes = _ast.make_fol_nodes(opmap)
-    nodes.Comparator = _lift_next(nodes.Comparator)
-    return nodes
+            'V'}
+    return _ast.make_fol_nodes(opmap)
 
 
 def make_wring_nodes() -> Nodes:
@@ -372,7 +276,7 @@ def make_wring_nodes() -> Nodes:
             '->',
         '<->':
             '<->',
-        '^':
+        'xor':
             '^',
         'G':
             'G',
@@ -440,9 +344,7 @@ def make_python_nodes() -> Nodes:
         '+':
             '+',
         '-':
-            '-',
-        '*':
-            '*'}
+            '-'}
     nodes = _ast.make_fol_nodes(opmap)
     class Imp(
             nodes.Binary):
@@ -680,9 +582,6 @@ def _format_slugs_vars(
             a.append(var)
         elif isinstance(dom, tuple) and len(dom) == 2:
             a.append(f'{var}: {dom[0]}...{dom[1]}')
-        elif isinstance(dom, list) and len(dom) > 0:
-            int_dom = convert_domain(dom)
-            a.append(f'{var}: {int_dom[0]}...{int_dom[1]}')
         else:
             raise ValueError(
                 f'unknown domain type: {dom}')
-- 
2.43.0


From 4469bd0d4a0448b0fdd4c755fa3d6ced35c870f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:23 +0000
Subject: [PATCH 054/110] fix: leave the operations given to compositions
 unchanged

---
 tulip/transys/compositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 4d474fc..07e5dc0 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -119,8 +119,8 @@ def synchronous_parallel(
         the synchronous parallel composition of
         all the objects in models
     """
-    if transition_attr_operations is None:
-        transition_attr_operations = dict()
+    transition_attr_operations = dict(
+        transition_attr_operations or dict())
     # Let models = [K_1, ..., K_n].
     # Let
     # * prod_states = [S_1, ..., S_n]
-- 
2.43.0


From 7f2a207e092dabfbe9b0dab57c79404b9397e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:23 +0000
Subject: [PATCH 055/110] fix: copy the labels of states in compositions

---
 tulip/transys/compositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 07e5dc0..6196689 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -159,7 +159,8 @@ def synchronous_parallel(
         ts.states[state]["ap"] = _ft.reduce(
             _op.or_, [
                 models[i].states[state[i]]["ap"]
-                for i in range(len(models))])
+                for i in range(len(models))],
+            set())
     #
     # Compute the initial state of ts:
     # I = I_1 \times ... \times I_n
-- 
2.43.0


From 48ec8513e0d17fba90e8e2e98a264977fdf1c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:23 +0000
Subject: [PATCH 056/110] fix: reject probabilities that are not numbers

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 1fc726d..9f6336a 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -174,7 +174,7 @@ class MarkovChain(
                     obj >= 0 and
                     obj <= 1)
             except TypeError:
-                pass
+                return False
             return in_01
 
 
-- 
2.43.0


From 49d38563bc5d7aa44bd835f6b3b824660f6474d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 057/110] fix: advance and end interactive runs of machines

---
 tulip/transys/machines.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index aec09b7..805b7a9 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -888,7 +888,8 @@ def interactive_run(
     while True:
         print(
             f'\n Current state: {state}')
-        if _interactive_run_step(mealy, state) is None:
+        state = _interactive_run_step(mealy, state)
+        if state is None:
             break
 
 
@@ -896,7 +897,7 @@ def _interactive_run_step(
         mealy:
             MealyMachine,
         state
-        ) -> bool | None:
+        ) -> _ty.Any | None:
     if state is None:
         raise Exception('Current state is None')
     # note: the spaghettiness of
@@ -913,7 +914,8 @@ def _interactive_run_step(
     while True:
         try:
             selected_trans = _select_transition(mealy, trans)
-        except:
+            break
+        except (ValueError, IndexError):
             print(
                 'Selection not recognized. '
                 'Please try again.')
@@ -929,7 +931,7 @@ def _interactive_run_step(
         f', to state: {to_state}\n'
         f'given inputs: {inputs}\n'
         f'reacting with outputs: {outputs}')
-    return True
+    return to_state
 
 
 def _select_transition(
-- 
2.43.0


From 2d1afbbc6b86138c6fef3b9d9abefac75a0c5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 058/110] fix: convert all initial states of Mealy to Moore
 machines

---
 tulip/transys/machines.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index 805b7a9..9285c02 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1055,22 +1055,21 @@ def mealy2moore(
         k: list(v)[0]
         for k, v in
             mealy.outputs.items()}
-    s0 = list(mealy.states.initial)[0]
     # create maps between Moore and Mealy states
     moore2mealy_states = dict()
         # {qj: si} (function)
     mealy2moore_states = dict()
         # {si: {qj, qk, ...}} (relation)
-    new_s0 = _create_state_str(
-        s0, out, moore, moore2mealy_states,
-        mealy2moore_states)
-    moore.states.add(new_s0, out)
-    moore.states.initial.add(new_s0)
     # cp transitions and create appropriate states
     Q = set()
     S = set()
-    Q.add(new_s0)
-    S.add(new_s0)
+    for s0 in mealy.states.initial:
+        new_s0 = _create_state_str(
+            s0, out, moore, moore2mealy_states,
+            mealy2moore_states)
+        moore.states.initial.add(new_s0)
+        Q.add(new_s0)
+        S.add(new_s0)
     while Q:
         new_si = Q.pop()
         si = moore2mealy_states[new_si]
-- 
2.43.0


From d954b47568c09f885898c79bee26785f7cf82f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 059/110] fix: mask outputs without changing the label while
 iterating

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 1942325..82ffad0 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1880,7 +1880,7 @@ def mask_outputs(
         ) -> None:
     """Erase outputs from each edge where they are zero."""
     for _, _, d in machine.edges(data=True):
-        for k in d:
+        for k in list(d):
             pop = (
                 k in machine.outputs and
                 d[k] == 0)
-- 
2.43.0


From 65f02bf3bc390a47a2040d53293be8e3e62ead12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 060/110] fix: quote any string in generated controllers

---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 59a149e..05e91b6 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -124,7 +124,7 @@ def python_case(
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
     proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
-    proj = lambda d, keys: ((k, "'"+d[k]+"'" if isinstance(d[k], str) else d[k])
+    proj = lambda d, keys: ((k, repr(d[k]) if isinstance(d[k], str) else d[k])
                             for k in d if k in keys)
     # generate selection statements
     c = list()
-- 
2.43.0


From 0ff1a8dbfe4f37507b0bc82661527127eef0da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 061/110] fix: list no input variables in generated controllers
 without inputs

---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 05e91b6..020b16a 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,7 +85,7 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
-    input_args_str = "'"+"', '".join(input_vars)+"'"
+    input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
-- 
2.43.0


From acb9fa65872ee2c749a04383b17a9bb40cf681a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 062/110] fix: generate controllers with an input named output

---
 tulip/dumpsmach.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 020b16a..a75c267 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,6 +85,10 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
+    # avoid an input with the same name
+    output = 'output'
+    while output in input_vars:
+        output += '_'
     input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
@@ -111,7 +115,7 @@ def python_case(
         '{t2}    dictionary with keys of the output variable names:\n'
         '{t2}    {outputs}\n'
         '{t2}"""\n'
-        '{t2}output = dict()\n'
+        '{t2}{output} = dict()\n'
         ).format(
             classname=classname,
             t=tab,
@@ -120,6 +124,7 @@ def python_case(
             sinit=node_to_int[start],
             input_args_str=input_args_str,
             input_args=input_args,
+            output=output,
             outputs=list(map(str, M.outputs)))
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
@@ -138,7 +143,7 @@ def python_case(
             else:
                 guard = 'True'
             outputs = ''.join(
-                f'{4 * tab}output["{k}"] = {v}\n'
+                f'{4 * tab}{output}["{k}"] = {v}\n'
                 for k, v in proj(d, M.outputs))
             target_id = node_to_int[w]
             edges.append(
@@ -167,7 +172,7 @@ def python_case(
             '{t2}else:\n'
             '{t3}raise AssertionError("Unrecognized internal state: " + '
             'str(self.state))\n'
-            '{t2}return output\n'
+            '{t2}return {output}\n'
             '\n'
             '{t}def _error(self, {input_args}):\n'
             '{t2}raise ValueError("Unrecognized input: " + ('
@@ -175,6 +180,7 @@ def python_case(
                 t=tab,
                 t2=2*tab,
                 t3=3*tab,
+                output=output,
                 input_args=input_args,
                 inputs=''.join(
                     '\n{t}"{v} = {{{v}}}; "'.format(v=v, t=3*tab)
-- 
2.43.0


From 6477abc01d49ab3654baa6d69b321767fee2f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 063/110] fix: equal vector costs are not greater than each
 other

`VectorCost.__gt__` returned `True` for equal vectors, so `a > a` was
`True` and `a <= a` was `False`.
---
 tulip/transys/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/cost.py b/tulip/transys/cost.py
index f911228..f0e3d74 100644
--- a/tulip/transys/cost.py
+++ b/tulip/transys/cost.py
@@ -134,4 +134,4 @@ class VectorCost:
             if a == b:
                 continue
             return a > b
-        return True
+        return False
-- 
2.43.0


From 8bb94c73507b1c59f8d93286041e4b16e5d8ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 064/110] fix: shortest-path search with nodes that are not
 comparable

Items of equal cost in the queue were compared by their nodes, which
raised `TypeError` for graphs with nodes of different types.
---
 tulip/transys/graph_algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index 0732bc9..02e29c3 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -34,6 +34,7 @@
 import collections.abc as _abc
 import copy
 import heapq as _hp
+import itertools as _itr
 
 import tulip.transys.labeled_graphs as _graphs
 
@@ -74,9 +75,11 @@ def dijkstra_single_source_multiple_targets(
     """
     dist = {source: 0}
     visited = set()
-    Q = [(0, source, list())]
+    # breaks ties, so that nodes need not be comparable
+    count = _itr.count()
+    Q = [(0, next(count), source, list())]
     while Q:
-        cost, u, path = _hp.heappop(Q)
+        cost, _, u, path = _hp.heappop(Q)
         if u in visited:
             continue
         visited.add(u)
@@ -92,7 +95,7 @@ def dijkstra_single_source_multiple_targets(
             new_cost = transition[2][cost_key] + cost
             if not current_cost or new_cost < current_cost:
                 dist[v] = new_cost
-                _hp.heappush(Q, (new_cost, v, path_to_u))
+                _hp.heappush(Q, (new_cost, next(count), v, path_to_u))
     return (
         float("inf"),
         list())
-- 
2.43.0


From b3ab8209965b66c11d4c5c0d00013bffa418e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 065/110] fix: find transitions of a rule to the given state
 only

The argument `to_states` of `find` is a container of states. A state
that is a string was used as that container, so transitions to other
states with names that are substrings were regarded too.
---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index ecc6250..088c324 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -82,7 +82,7 @@ def _get_rule_violation_cost(
     cost = [0] * spec.get_num_levels()
     for idx, rule in enumerate(spec):
         rule_transitions = rule.automaton().transitions.find(
-            from_spec_state[idx], to_spec_state[idx])
+            from_spec_state[idx], [to_spec_state[idx]])
         rule_transition_labels = [
             set(transition[2]["letter"])
             for transition in rule_transitions]
-- 
2.43.0


From cbd6bfeeca83b14a2f2e96ae0e3428ef667cff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 066/110] fix: product transitions from all states of the rules

The iterator over target states was exhausted by the first source state,
so rules with more than one state had no transitions from the others.
---
 tulip/mvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index 088c324..6948da9 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -116,6 +116,7 @@ def _add_transition(
         the cost of transition from from_prod_state[0] to to_prod_state[0]
         in ks
     """
+    to_prod_states = list(to_prod_states)
     for from_prod_state in from_prod_states:
         for to_prod_state in to_prod_states:
             _add_transition_edge(
-- 
2.43.0


From 5ddfe70c1afd43641b72b58ca64ab2010d6a3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 067/110] fix: goal states of the product are accepting

Goal states with rule states that are not accepting were added to a
subset of the accepting states, which raised `ValueError`.
---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index 6948da9..436fe73 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -232,7 +232,7 @@ def solve(
         if goal_label in ks.states[state]["ap"]]
     accepting_goal_states = _trs.SubSet(wpa.accepting)
     accepting_goal_states.add_from(
-        _itr.product(goal_states, spec.get_states()))
+        _itr.product(goal_states, spec.get_accepting_states()))
     cost, product_path = _gralgo.dijkstra_multiple_sources_multiple_targets(
         wpa,
         wpa.states.initial,
-- 
2.43.0


From 66925ef02adf043ce6aed022fad1074e159bc26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 068/110] fix: a violated rule keeps its state

In the weighted automaton of a rule (Definition 8), a letter that violates
the rule is skipped: it labels only self-loops. A jump to an arbitrary
state, for the cost of one violation, made plans that violate a rule
several times appear better than they are.
---
 tulip/mvp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index 436fe73..78f3b1b 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -57,9 +57,10 @@ def _get_rule_violation_cost(
             PrioSpec,
         to_ap:
             set
-        ) -> list[float]:
+        ) -> list[float] | None:
     """Return the rule violation cost on the transition from
-    from_prod_state to to_prod_state.
+    from_prod_state to to_prod_state, or `None` if there is
+    no such transition.
 
     This follows Definition 8 (weighted finite automaton)
     and Definition 9 (product automaton) in
@@ -87,6 +88,9 @@ def _get_rule_violation_cost(
             set(transition[2]["letter"])
             for transition in rule_transitions]
         if to_ap not in rule_transition_labels:
+            # a letter that violates the rule vanishes
+            if from_spec_state[idx] != to_spec_state[idx]:
+                return None
             cost[rule.level()] += rule.priority()
     return cost
 
@@ -141,6 +145,8 @@ def _add_transition_edge(
     to_ap = ks.states[to_prod_state[0]]["ap"]
     cost = _get_rule_violation_cost(
         from_prod_state, to_prod_state, spec, to_ap)
+    if cost is None:
+        return
     cost.append(trans_ks_cost)
     fa.transitions.add(
         from_prod_state,
-- 
2.43.0


From cae0eed262527d2832f0b0b4cea09c9068d342b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 069/110] fix: a transition without env actions leaves the
 environment free

In a state of a system FTS with transitions both with and without
environment actions, the environment was assumed to take one of the
actions of the former, though the latter are enabled for any action.
---
 tulip/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 82ffad0..7e623cc 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1021,7 +1021,9 @@ def _env_trans_from_sys_ts(
                     label.items()
                 if 'env' in k}
             if not env_actions:
-                continue
+                # any env action enables this transition
+                next_env_action_combs = set()
+                break
             _logger.debug(
                 f'env_actions: {env_actions}')
             _logger.debug(
-- 
2.43.0


From e353f0d51f6a67144ed0710a1b4e8e1821c00ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 070/110] fix: integers that are not states or actions are
 excluded

States and actions that are integers, with other integers between them,
are represented by an integer variable. Nothing excluded the integers
that are no states (when initial states are ignored) or no actions
(though `must` is 'xor').
---
 tulip/synth.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 7e623cc..99ef2f8 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -425,6 +425,9 @@ def iter2var(
             for x in states}
         variables[statevar] = domain
         constraint = None
+        if all_int and min_one and len(set(states)) < n - min(states) + 1:
+            # integers between the values
+            constraint = [_disj(state_ids.values())]
     tabs = 2 * '\t'
     _logger.debug(
         f'for tulip variable: {statevar}\n'
@@ -637,8 +640,7 @@ def sys_to_spec(
         states, sys_vars,
         statevar, bool_states,
         must='xor')
-    if constraint is not None:
-        sys_trans += constraint
+    _add_actions(constraint, sys_init, sys_trans)
     sys_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
     sys_trans += _sys_trans_from_ts(
@@ -757,8 +759,7 @@ def env_to_spec(
         states, env_vars,
         statevar, bool_states,
         must='xor')
-    if constraint is not None:
-        env_trans += constraint
+    _add_actions(constraint, env_init, env_trans)
     env_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
     env_trans += _env_trans_from_env_ts(
-- 
2.43.0


From a3c0f3350a1b14ca40069c6f9fb5024208be3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 071/110] fix: exactly one of one Boolean value is true

A single state or action that is represented by a Boolean variable could
be false, though exactly one should be true at each time.
---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 99ef2f8..b38e324 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -377,6 +377,8 @@ def iter2var(
             for s in states})
         # single action ?
         if len(mutex(state_ids.values())) == 0:
+            if min_one:
+                return state_ids, exactly_one(state_ids.values())
             return state_ids, None
         # handle multiple actions
         if use_mutex and not min_one:
-- 
2.43.0


From c93d17979654702b9abefd7b99ffc197dbbfd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 072/110] fix: ignore_init is optional in synthesize_many

---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index b38e324..0aef24f 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1330,6 +1330,8 @@ def synthesize_many(
         available options.
     """
     assert isinstance(ts, dict), ts
+    if ignore_init is None:
+        ignore_init = set()
     for name, t in ts.items():
         if not isinstance(t, transys.FiniteTransitionSystem):
             raise AssertionError(t)
-- 
2.43.0


From 6414f6641da05142b9555aaeffa2829cb7279539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 073/110] fix: allow ports and labels named as parameters of
 add_edge

Synthesis raised an exception for variables named `u`, `v`, `key`,
`check` or `attr_dict`, because labels were keyword arguments.
---
 tulip/synth.py                  | 13 +++++--------
 tulip/transys/labeled_graphs.py | 15 ++++++---------
 tulip/transys/machines.py       |  2 +-
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 0aef24f..ab7ca52 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1719,9 +1719,8 @@ def strategy2mealy(
             d = _int2str(d, str_vars)
             mach.transitions.add(
                 u, v,
-                attr_dict=None,
-                check=False,
-                **d)
+                attr_dict=d,
+                check=False)
             _logger.info(
                 f'node: {v}, state: {d}')
     # special initial state, for first reaction
@@ -1789,8 +1788,7 @@ def _init_edges_using_initial_nodes(
         d = _int2str(d, str_vars)
         mach.transitions.add(
             initial_state, u,
-            attr_dict=None,
-            **d)
+            attr_dict=d)
 
 
 def _init_edges_using_compile_init(
@@ -1830,9 +1828,8 @@ def _init_edges_using_compile_init(
             label = _int2str(var_values, str_vars)
             mach.transitions.add(
                 initial_state, u,
-                attr_dict=None,
-                check=False,
-                **label)
+                attr_dict=label,
+                check=False)
             # remember variable values to avoid
             # spurious non-determinism wrt
             # the machine's memory
diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 8701a24..6d725e3 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1147,12 +1147,11 @@ class LabeledDiGraph(
             typed_attr,
             self._node_label_types,
             check)
-        is_new = n not in self._node
-        nx.MultiDiGraph.add_node(
-            self, n,
-            **typed_attr)
         # `networkx` copies the attributes to a `dict`
-        if is_new:
+        if n in self._node:
+            self._node[n].update(typed_attr)
+        else:
+            nx.MultiDiGraph.add_node(self, n)
             self._node[n] = typed_attr
 
     def add_nodes_from(
@@ -1277,15 +1276,13 @@ class LabeledDiGraph(
             datadict = keydict.get(key, typed_attr)
             datadict.update(typed_attr)
             nx.MultiDiGraph.add_edge(
-                self, u, v, key,
-                **datadict)
+                self, u, v, key)
         else:
             # selfloops work this way
             # without special treatment
             datadict = typed_attr
             key = nx.MultiDiGraph.add_edge(
-                self, u, v,
-                **typed_attr)
+                self, u, v)
         # `networkx` copies the attributes to a `dict`
         self._adj[u][v][key] = datadict
 
diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index 9285c02..8d4bb75 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1212,5 +1212,5 @@ def strip_ports(
     edges = mealy.edges(data=True)
     for u, v, d in edges:
         d = trim_dict(d, names)
-        new.add_edge(u, v, **d)
+        new.add_edge(u, v, attr_dict=d)
     return new
-- 
2.43.0


From 172cc3941438d08da0f9e5041670242cd2ddae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 074/110] fix: synthesize_many supports \A \A as synthesize
 does

The initial conditions of the transition systems were required to be
valid, instead of restricting the initial states.
---
 tulip/synth.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index ab7ca52..04882e8 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1340,10 +1340,18 @@ def synthesize_many(
         match t.owner:
             case 'sys':
                 sys_spec = sys_to_spec(t, ignore, statevar)
+                if specs.qinit == r'\A \A':
+                    sys_spec.env_init.extend(
+                        sys_spec.sys_init)
+                    sys_spec.sys_init = list()
                 _copy_options_from_ts(sys_spec, t, specs)
                 specs |= sys_spec
             case 'env':
                 env_spec = env_to_spec(t, ignore, statevar)
+                if specs.qinit == r'\A \A':
+                    env_spec.env_init.extend(
+                        env_spec.sys_init)
+                    env_spec.sys_init = list()
                 _copy_options_from_ts(env_spec, t, specs)
                 specs |= env_spec
     return _synthesize(
-- 
2.43.0


From febe33988b1ad67d8de0a8e32449bc0094fd810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 075/110] fix: matrices are optional in conversions of linear
 systems

The class methods `from_lti` raised `AttributeError` when any of
the matrices `B`, `E`, `K` was omitted, which `LtiSysDyn` allows.
---
 tulip/hybrid.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index e04dade..409d4c0 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -536,14 +536,6 @@ class PwaSysDyn:
             domain:
                 Polytope=None
             ) -> 'PwaSysDyn':
-        if A is None:
-            A = list()
-        if B is None:
-            B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         lti_sys = LtiSysDyn(
             A, B, E, K, Uset, Wset, domain)
         return cls([lti_sys], domain)
@@ -850,14 +842,6 @@ class SwitchedSysDyn:
             domain:
                 Polytope=None
             ) -> 'SwitchedSysDyn':
-        if A is None:
-            A = list()
-        if B is None:
-            B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         pwa_sys = PwaSysDyn.from_lti(
             A, B, E, K,
             Uset, Wset, domain)
-- 
2.43.0


From 32ad5835d3a1373cdb7dfdc17893eb950f687116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 076/110] fix: systems without subsystems have consistent time
 data

`PwaSysDyn` and `SwitchedSysDyn` raised `IndexError` when given
no subsystems and `overwrite_time=False`.
---
 tulip/hybrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index 409d4c0..5594e28 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -956,6 +956,8 @@ def _check_time_consistency(
         if time_semantics_differ:
             raise ValueError(
                 'Not all time-semantics are the same.')
+    if not system_list:
+        return
     # Check that time semantics for all subsystems
     # match specified system and timestep
     if system_list[0].timestep != timestep:
-- 
2.43.0


From f2f0ce144eef9f2c4bc8216acc00262789b5ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 077/110] fix: piecewise-affine systems of subsystems without
 inputs

`PwaSysDyn` raised `AttributeError` for subsystems without `B`.
---
 tulip/hybrid.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index 5594e28..2c64ca0 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -461,7 +461,7 @@ class PwaSysDyn:
             uncovered_dom = domain.copy()
             n = list_subsys[0].A.shape[1]
                 # State-space dimension
-            m = list_subsys[0].B.shape[1]
+            m = _n_columns(list_subsys[0].B)
                 # Input-space dimension
             p = list_subsys[0].E.shape[1]
                 # Disturbance-space dimension
@@ -470,7 +470,7 @@ class PwaSysDyn:
                     subsys.domain)
                 dims_differ = (
                     n != subsys.A.shape[1] or
-                    m != subsys.B.shape[1] or
+                    m != _n_columns(subsys.B) or
                     p != subsys.E.shape[1])
                 if dims_differ:
                     raise ValueError(
@@ -970,6 +970,16 @@ def _check_time_consistency(
             'specified time semantics.')
 
 
+def _n_columns(
+        array:
+            maybe_array
+        ) -> int:
+    """Return number of columns, 0 if no array."""
+    if array is None:
+        return 0
+    return array.shape[1]
+
+
 def _assert_square_array(
         array:
             np.ndarray
-- 
2.43.0


From d34823cd05cb88bd19cd55788b9ffbda52ca55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 078/110] fix: transitions, labels, and initial states in
 Promela

---
 tulip/transys/export/graph2promela.py | 34 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 6643f90..68d48a2 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -31,6 +31,7 @@
 # SUCH DAMAGE.
 """Convert state graphs to Promela."""
 import collections.abc as _abc
+import re
 import time
 
 import tulip.transys as _trs
@@ -68,6 +69,16 @@ def fts2promela(
         Promela process name (after proctype)
         (default: system name)
     """
+    # unique identifiers that are
+    # not keywords of Promela
+    labels = dict()
+    for state in graph.states():
+        label = 'state_' + re.sub(
+            r'\W', '_', str(state),
+            flags=re.ASCII)
+        while label in labels.values():
+            label += f'_{len(labels)}'
+        labels[state] = label
     def state_ap2promela(
             state,
             graph,
@@ -94,24 +105,24 @@ def fts2promela(
             ap_alphabet:
                 _abc.Iterable
             ) -> str:
+        if not transitions:
+            return '\t false;\n\n'
         s = '\t if\n'
         for from_state, to_state, sublabels_dict in transitions:
             s += (
                 '\t :: atomic{\n'
                 f'\t\t printf("{sublabels_dict}\\n");\n'
                 f'{state_ap2promela(to_state, graph, ap_alphabet)}'
-                f'\t\t goto {to_state}\n'
+                f'\t\t goto {labels[to_state]}\n'
                 '\t }\n')
         s += '\t fi;\n\n'
         return s
     def get_label_of(state, graph):
         state_label_pairs = graph.states.find([state])
         state_, ap_label = state_label_pairs[0]
-        print(f'state:\t{state}')
-        print(f'ap label:\t{ap_label}')
         return ap_label['ap']
-    if procname is None:
-        procname = graph.name
+    if not procname:
+        procname = graph.name or 'fts'
     s = '/*\n * Promela file generated with TuLiP\n'
     tm = time.strftime('%x %X %z')
     s += f' * Date: {tm}\n */\n\n'
@@ -120,16 +131,19 @@ def fts2promela(
         if ap not in {None, True}:
             s += f'bool {ap};\n'
     s += f'\nactive proctype {procname}(){{\n'
+    ap_alphabet = graph.atomic_propositions
     s += '\t if\n'
     for initial_state in graph.states.initial:
-        s += f'\t :: goto {initial_state}\n'
+        s += (
+            '\t :: atomic{\n'
+            f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
+            f'\t\t goto {labels[initial_state]}\n'
+            '\t }\n')
     s += '\t fi;\n'
-    ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
-            {state},
-            as_dict=True)
-        s += str(state).replace(' ', '_') + ':'
+            [state])
+        s += labels[state] + ':'
         s += trans2promela(
             out_transitions, graph,
             ap_alphabet)
-- 
2.43.0


From 54eaca1a617c79be68b19cb30636466ce4a3fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 079/110] fix: saving transition systems as files

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 9f6336a..9776bab 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -693,7 +693,7 @@ class FiniteTransitionSystem(
         if fileformat not in file_formats:
             return False
         # closed ?
-        if self.env_vars:
+        if self.env_actions:
             return False
         s = _pml.fts2promela(self, self.name)
         # dump to file
-- 
2.43.0


From 1475a895e238fd9c577bf54bad586eb8176cbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 080/110] fix: well-formed SCXML documents

---
 tulip/transys/export/machine2scxml.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 5143e55..e28d8b4 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -30,6 +30,8 @@
 # OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF
 # SUCH DAMAGE.
 """Convert Finite State Machines to State Chart XML (SCXML)."""
+import xml.sax.saxutils as _xml
+
 import tulip.transys as _trs
 
 
@@ -78,10 +80,12 @@ def mealy2scxml(
         for from_state_, to_state, sublabel_dict in trans:
             s += f'{indent(n)}<transition '
             n = n + 1
+            cond = _xml.quoteattr(str(sublabel_dict))
+            target = _xml.quoteattr(str(to_state))
             s += (
                 f'{indent(n)}event="input_present" '
-                f'{indent(n)}cond="{sublabel_dict}" '
-                f'{indent(n)}target="{to_state}"/>')
+                f'{indent(n)}cond={cond} '
+                f'{indent(n)}target={target}>')
             n = n - 1
             s += f'{indent(n)}</transition>'
         return s
@@ -92,12 +96,12 @@ def mealy2scxml(
     if len(mealy.states.initial) != 1:
         raise Exception(
             'Must have exactly 1 initial state.\n'
-            f'Got instead:\n\t{mealy.states.initial()}')
-    initial_state = mealy.states.initial()[0]
-    s += f'initial="{initial_state}">\n'
+            f'Got instead:\n\t{mealy.states.initial}')
+    initial_state, = mealy.states.initial
+    s += f'initial={_xml.quoteattr(str(initial_state))}>\n'
     for state in mealy.states():
         s += (
-            f'\t<state id="{state}">'
+            f'\t<state id={_xml.quoteattr(str(state))}>'
             f'{transitions_str(state, mealy)}\n'
             '\t</state>\n')
     s += '</scxml>'
-- 
2.43.0


From e0d15baa421f14c29bead5adb82832496c34e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 081/110] fix: links between nodes in HTML export

---
 tulip/transys/export/save_d3.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index afb7a95..33ba702 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -37,8 +37,6 @@ import json
 import inspect
 import os
 
-import networkx.readwrite as _nxrw
-
 import tulip.transys.labeled_graphs as _graphs
 
 
@@ -157,12 +155,19 @@ def labeled_digraph2d3(
 
     var graph = """
     # embed to avoid browser local file-loading restrictions
-    try:
-        s += _nxrw.json_graph.dumps(graph)
-    except:
-        # better error msg for numpy array
-        data = _nxrw.json_graph.node_link_data(graph)
-        s += json.dumps(data, default=lambda x: str(x))
+    #
+    # `d3.js` refers to nodes by their index
+    index = {u: i for i, u in enumerate(graph)}
+    data = dict(
+        nodes=[
+            {**attr, 'id': u}
+            for u, attr in graph.nodes(data=True)],
+        links=[
+            {**attr,
+             'source': index[u],
+             'target': index[v]}
+            for u, v, attr in graph.edges(data=True)])
+    s += json.dumps(data, default=lambda x: str(x))
     s += ';'
     s += """
     function draw(graph){
-- 
2.43.0


From 9ded58e44e3e32ac665b92d2b11ead5769de8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 082/110] fix: probabilities and labels in PRISM files

---
 tulip/interfaces/stormpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 8aac79c..c645b1e 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -290,7 +290,7 @@ def to_prism_file(
         return transition_dict
     # Return a properly formatted string for the given probability
     def get_prob_str(prob):
-        return f'{prob:.4f}'
+        return repr(float(prob))
     # Return a string representing the
     # state with the given index and whether
     # it is primed (primed in prism file
@@ -355,7 +355,7 @@ def to_prism_file(
             state_str = '|'.join(
                 ['(' + get_state_str(state_list.index(s), False) + ')'
                  for s in states]
-            )
+            ) or 'false'
             f.write(
                 f'label "{label}" = {state_str};\n')
 
-- 
2.43.0


From 20f50e42d7f2bd07f20622ce1aa3e1803989c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 083/110] fix: actions that correspond to the actions of PRISM
 models

---
 tulip/interfaces/stormpy.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index c645b1e..e76a79d 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -478,25 +478,22 @@ def _update_possible_actions_with_transitions(
     transition to each state matches `stormpy_transitions`
     with the given `prob_tol`.
     """
+    stormpy_prob = dict()
     for stormpy_transition in stormpy_transitions:
         to_state_tulip = to_tulip_state(
             stormpy_model.states[stormpy_transition.column],
             tulip_transys)
-        probability = stormpy_transition.value()
+        stormpy_prob[to_state_tulip] = stormpy_transition.value()
+    for action in list(possible_actions):
         transitions = tulip_transys.transitions.find(
-            from_state_tulip,
-            [to_state_tulip])
-        for tulip_transition in transitions:
-            prob = abs(
-                tulip_transition[2][
-                    MC.probability_label] -
-                probability)
-            pred = prob > prob_tol
-            if not pred:
-                continue
-            try:
-                idx = possible_actions.index(
-                    tulip_transition[2][MDP.action_label])
-                possible_actions.pop(idx)
-            except ValueError:
-                pass
+            [from_state_tulip])
+        tulip_prob = {
+            to_state: attr[MC.probability_label]
+            for _, to_state, attr in transitions
+            if attr[MDP.action_label] == action}
+        same = all(
+            abs(tulip_prob.get(to_state, 0) -
+                stormpy_prob.get(to_state, 0)) <= prob_tol
+            for to_state in tulip_prob.keys() | stormpy_prob.keys())
+        if not same:
+            possible_actions.remove(action)
-- 
2.43.0


From 1d4778aa3a8cc41373c761e04ca4110742ed1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 084/110] fix: accepting states and tikz styles in DOT files

---
 tulip/transys/export/graph2dot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index aff4c81..5e1cc2a 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -187,7 +187,7 @@ def _state2dot(
 def _state2tikz(
         graph:
             '_trs.LabeledDiGraph',
-        to_pydot_graph,
+        to_dot_graph,
         state,
         is_initial:
             bool,
@@ -308,6 +308,8 @@ def _place_initial_states(
     init_subg.graph_attr['rank'] = 'source'
     for node in trs_graph.states.initial:
         init_subg.node(str(node))
+        if tikz:
+            continue
         phantom_node = f'phantominit{node}'
         init_subg.node(str(phantom_node))
     pd_graph.subgraph(init_subg)
@@ -420,7 +422,7 @@ def _is_accepting(
         ) -> bool:
     """accepting state ?"""
     # no accepting states defined ?
-    if not hasattr(graph.states, 'accepting'):
+    if not hasattr(graph, 'accepting'):
         return False
     return state in graph.accepting
 
-- 
2.43.0


From 66e5dba722c858ed0cbb1c9243aff57250334009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 085/110] fix: HTML export of Markov models

---
 tulip/transys/export/save_d3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index 33ba702..609207f 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -49,7 +49,8 @@ def _format_label(
     """Format state/edge labels, which pop-up on mouse hover."""
     s = '"\\n\\n" +'
     for sublabel_name in label_def:
-        shown_name = label_dot_format[sublabel_name]
+        shown_name = label_dot_format.get(
+            sublabel_name, sublabel_name)
         kv_sep = label_dot_format['type?label']
         sep = label_dot_format['separator']
         s += f'"{shown_name}{kv_sep}" '
-- 
2.43.0


From ef1ba78f0f1139db98fb41e9bca3469ba681b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 086/110] fix: load XML files of gr1c

---
 tulip/interfaces/gr1c.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 4099df8..ad7ebc5 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -284,9 +284,13 @@ def load_aut_xml(
             f'{elem.attrib["version"]}')
     # Extract discrete variables and LTL specification
     tag_name, env_vardict, env_vars = _untagdict(elem.find(
-        ns_prefix+"env_vars"), get_order=True)
+        ns_prefix+"env_vars"),
+        namespace=namespace,
+        get_order=True)
     tag_name, sys_vardict, sys_vars = _untagdict(elem.find(
-        ns_prefix+"sys_vars"), get_order=True)
+        ns_prefix+"sys_vars"),
+        namespace=namespace,
+        get_order=True)
     # variables
     env_vars = _parse_vars(env_vars, env_vardict)
     sys_vars = _parse_vars(sys_vars, sys_vardict)
@@ -313,7 +317,7 @@ def load_aut_xml(
     return_now = (
         aut_elem is None or (
         aut_elem.text is None and
-            len(aut_elem.getchildren()) == 0))
+            len(aut_elem) == 0))
     if return_now:
         mach = None
         return (spec, mach)
@@ -334,14 +338,16 @@ def load_aut_xml(
         #     # Assume version 1
         tag_name, this_name_list = _untaglist(
             node.find(f'{ns_prefix}anno'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if len(this_name_list) == 2:
             mode, rgrad = this_name_list
         else:
             mode, rgrad = (-1, -1)
         tag_name, this_child_list = _untaglist(
             node.find(f'{ns_prefix}child_list'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if tag_name != f'{ns_prefix}child_list':
             # This really should never happen and may not even be
             # worth checking.
@@ -644,7 +650,7 @@ def load_mealy(
     elif fformat.lower() == 'json':
         strategy = load_aut_json(s)
     else:
-        ValueError(
+        raise ValueError(
             '`gr1c.load_mealy()`: '
             f'Unrecognized file format, "{fformat}"')
     _logger.debug(
-- 
2.43.0


From 5dacdd63b268fb8324ec3436d923763655adde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 087/110] fix: load automata of ltl2ba

---
 tulip/interfaces/ltl2ba.py | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index a4612fe..0370fda 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -53,12 +53,6 @@ class Lexer:
         | True
         | true
         '''
-    t_FALSE = '''
-          FALSE
-        | False
-        | false
-        '''
-
     t_COMMENT = r'''
         / \*
         .*
@@ -111,9 +105,11 @@ class Lexer:
             'never':
                 'NEVER',
             'skip':
-                'SKIP'}
+                'SKIP',
+            'false':
+                'FALSE'}
         self.tokens = (
-            'TRUE', 'FALSE',
+            'TRUE',
             'NUMBER',
             'NOT', 'AND', 'OR', 'XOR', 'IMP', 'BIMP',
             'EQUALS', 'NEQUALS', 'LT', 'LE', 'GT', 'GE',
@@ -279,6 +275,16 @@ class Parser:
             self.g.add_edge(u, v, guard=guard)
         p[0] = (u, if_clause)
 
+    def p_clause_skip(self, p):
+        """clause : state COLON SKIP"""
+        # accept all
+        self.g.add_edge(p[1], p[1], guard='1')
+        p[0] = (p[1], [('1', p[1])])
+
+    def p_clause_false(self, p):
+        """clause : state COLON FALSE SEMI"""
+        p[0] = (p[1], list())
+
     def p_if_clause(self, p):
         """if_clause : IF cases FI SEMI"""
         p[0] = p[2]
@@ -330,7 +336,7 @@ class Parser:
         self.g.add_node(state)
         if 'init' in state:
             self.initial_nodes.add(state)
-        elif 'accept' in state:
+        if 'accept' in state:
             self.accepting_nodes.add(state)
         p[0] = p[1]
 
@@ -355,14 +361,15 @@ def ltl2ba(
         with Boolean formulas as `str`
     """
     ltl2ba_out = call_ltl2ba(str(formula))
-    parser = ltl2baint.Parser()
+    parser = Parser()
     symbols, g, initial, accepting = parser.parse(ltl2ba_out)
-    ba = _trs.BuchiAutomaton()
-    ba.atomic_propositions.update(symbols)
-    ba.add_nodes_from(g)
-    ba.add_edges_from(g.edges(data=True))
-    ba.initial_nodes = initial
-    ba.accepting_sets = accepting
+    ba = _trs.BuchiAutomaton(symbolic=True)
+    ba.atomic_propositions = set(symbols)
+    ba.states.add_from(g)
+    for u, v, guard in g.edges(data='guard'):
+        ba.transitions.add(u, v, letter=guard)
+    ba.states.initial.add_from(initial)
+    ba.accepting.add_from(accepting)
     _logger.info(f'Resulting automaton:\n\n{ba}\n')
     return ba
 
-- 
2.43.0


From 9312b01b2be0bd14dce164b7a1c2907112600bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:38 +0000
Subject: [PATCH 088/110] fix: load strategies of Lily

---
 tulip/interfaces/lily.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tulip/interfaces/lily.py b/tulip/interfaces/lily.py
index 0c13655..f6545aa 100644
--- a/tulip/interfaces/lily.py
+++ b/tulip/interfaces/lily.py
@@ -163,7 +163,7 @@ def _lily_strategy2moore(
     lines = filter(is_node_or_edge, lines)
     def is_title_line(line):
         return line.startswith('"title"')
-    lines = list(filter(
+    lines = list(_itr.filterfalse(
         is_title_line, lines))
     def line_is_edge(line):
         return '->' in line
@@ -184,7 +184,7 @@ def _lily_strategy2moore(
         edges.append(edge)
         nodes.update((start, end))
     def is_init(node):
-        return node.startswith('init-')
+        return node.startswith('"init-')
     phantom_init = set(filter(
         is_init, nodes))
     game_nodes = set(_itr.filterfalse(
@@ -203,12 +203,12 @@ def _lily_strategy2moore(
     # make machine
     mapping = {k: i for i, k in enumerate(sys_nodes)}
     successors = _cl.defaultdict(set)
-    edge_labels = dict()
+    edge_labels = _cl.defaultdict(list)
     for start, end, annot in edges:
         start = mapping.get(start, start)
         end = mapping.get(end, end)
         successors[start].add(end)
-        edge_labels[start, end] = annot
+        edge_labels[start, end].append(annot)
     machine = _trs.MooreMachine()
     inports = {
         name: {False, True}
@@ -231,8 +231,8 @@ def _lily_strategy2moore(
         if len(succ) != 1:
             raise AssertionError(succ)
         v, = succ
-        attr = edge_labels[u, v]
-        d = _parse_label(attr['label'])
+        attr = edge_labels[u, v][0]
+        d = _parse_label(attr)
         machine.add_node(u, **d)
         # input does not matter for this reaction ?
         if v in machine:
@@ -241,9 +241,9 @@ def _lily_strategy2moore(
         # label edges with input values that matter
         for w in successors[v]:
             assert w in machine, w
-            attr = edge_labels[v, w]
-            d = _parse_label(attr['label'])
-            machine.add_edge(u, w, **d)
+            for attr in edge_labels[v, w]:
+                d = _parse_label(attr)
+                machine.add_edge(u, w, **d)
     return machine
 
 
-- 
2.43.0


From f4d3fb57cfb61ced09b1cb03a5cca622c9e159ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:26 +0000
Subject: [PATCH 089/110] fix: grids with bounds that are arrays

`bounding_box` returns columns, and the conversion of arrays
of one dimension to `float` raises `TypeError`.
---
 tulip/abstract/prop2partition.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 76b1701..cf1ceb6 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -573,8 +573,8 @@ def add_grid(
                 for i in range(dim):
                     if isinstance( num_grid_pnts[i], int):
                         grid_size=(
-                                float(domain_bb[1][i]) -
-                                float(domain_bb[0][i])
+                                float(domain_bb[1][i, 0]) -
+                                float(domain_bb[0][i, 0])
                             ) / num_grid_pnts[i]
                         size_list.append(grid_size)
                     else:
@@ -588,8 +588,8 @@ def add_grid(
         elif isinstance(num_grid_pnts, int):
             for i in range(dim):
                 grid_size=(
-                        float(domain_bb[1][i]) -
-                        float(domain_bb[0][i])
+                        float(domain_bb[1][i, 0]) -
+                        float(domain_bb[0][i, 0])
                     ) / num_grid_pnts
                 size_list.append(grid_size)
         else:
@@ -600,8 +600,8 @@ def add_grid(
     list_grid = dict()
     while j < dim:
         list_grid[j] = compute_interval(
-            float(domain_bb[0][j]),
-            float(domain_bb[1][j]),
+            float(domain_bb[0][j, 0]),
+            float(domain_bb[1][j, 0]),
             size_list[j],
             abs_tol)
         if j > 0:
-- 
2.43.0


From 5fc14610d976571b0a004793972c1de4c922522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:26 +0000
Subject: [PATCH 090/110] fix: grids in one dimension

---
 tulip/abstract/prop2partition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index cf1ceb6..508a239 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -604,14 +604,11 @@ def add_grid(
             float(domain_bb[1][j, 0]),
             size_list[j],
             abs_tol)
-        if j > 0:
-            if j == 1:
-                re_list = list_grid[j - 1]
-                re_list = product_interval(
-                    re_list, list_grid[j])
-            else:
-                re_list = product_interval(
-                    re_list, list_grid[j])
+        if j == 0:
+            re_list = list_grid[j]
+        else:
+            re_list = product_interval(
+                re_list, list_grid[j])
         j += 1
     new_list = list()
     parent = list()
-- 
2.43.0


From 0a817b73948986303acbee9d488a2641101deec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 091/110] fix: shape of disturbance matrix for empty sets of
 disturbances

---
 tulip/abstract/feasible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index 84ac667..b504b25 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -549,7 +549,7 @@ def createLM(
     # non-zero disturbance matrix E ?
     if not np.all(E == 0):
         if not pc.is_fulldim(D):
-            E = np.zeros(K.shape)
+            E = np.zeros(E.shape)
     list_len = np.array(
         [P.A.shape[0]
          for P in list_P])
-- 
2.43.0


From 93e1e07c66afad34599b2d835c99191cb8fd0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 092/110] fix: disturbance sets with more than ten vertices

---
 tulip/abstract/feasible.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index b504b25..beecac5 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -722,29 +722,15 @@ def get_max_extreme(
         the disturbance.
     """
     D_extreme = pc.extreme(D)
-    nv = D_extreme.shape[0]
     dim = D_extreme.shape[1]
-    DN_extreme = np.zeros([
-        dim * N,
-        nv**N])
-    for i in range(nv**N):
-        # Last N digits are indices we want
-        ind = np.base_repr(
-            i,
-            base=nv,
-            padding=N)
-        for j in range(N):
-            DN_extreme[
-                range(
-                    j * dim,
-                    (j + 1) * dim),
-                i] = D_extreme[
-                    int(ind[-j - 1]),
-                    :]
-    d_hat = np.amax(
-        np.dot(G, DN_extreme),
-        axis=1)
-    return d_hat.reshape(d_hat.size, 1)
+    d_hat = np.zeros([G.shape[0], 1])
+    # each factor of `D^N` is maximized separately
+    for j in range(N):
+        G_j = G[:, j * dim:(j + 1) * dim]
+        d_hat[:, 0] += np.amax(
+            G_j.dot(D_extreme.T),
+            axis=1)
+    return d_hat
 
 
 def _block_diag2(
-- 
2.43.0


From e002beeb8b07fd25f17a939b98f578dc3c4c647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 093/110] fix: disturbance sets without volume

---
 tulip/abstract/feasible.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index beecac5..cf8d54b 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -548,7 +548,9 @@ def createLM(
         # Disturbance space dimension
     # non-zero disturbance matrix E ?
     if not np.all(E == 0):
-        if not pc.is_fulldim(D):
+        _, center = pc.cheby_ball(D)
+        if center is None:
+            # empty `D`
             E = np.zeros(E.shape)
     list_len = np.array(
         [P.A.shape[0]
@@ -721,18 +723,37 @@ def get_max_extreme(
         the maximum possible effect from
         the disturbance.
     """
-    D_extreme = pc.extreme(D)
-    dim = D_extreme.shape[1]
+    dim = D.A.shape[1]
     d_hat = np.zeros([G.shape[0], 1])
     # each factor of `D^N` is maximized separately
     for j in range(N):
         G_j = G[:, j * dim:(j + 1) * dim]
-        d_hat[:, 0] += np.amax(
-            G_j.dot(D_extreme.T),
-            axis=1)
+        d_hat[:, 0] += _max_over(G_j, D)
     return d_hat
 
 
+def _max_over(
+        G:
+            np.ndarray,
+        D:
+            pc.Polytope
+        ) -> np.ndarray:
+    """Return maximum of each row of `G * d`, for `d` in `D`."""
+    if pc.is_fulldim(D):
+        return np.amax(
+            G.dot(pc.extreme(D).T),
+            axis=1)
+    # `D` has no volume
+    values = list()
+    for row in G:
+        sol = pc.polytope.lpsolve(- row, D.A, D.b)
+        if sol['status'] != 0:
+            raise ValueError(
+                'disturbance set is unbounded')
+        values.append(- sol['fun'])
+    return np.array(values)
+
+
 def _block_diag2(
         A:
             np.ndarray,
-- 
2.43.0


From 62c56e9b63f16dfba4a2dbaa3cc60381ab996fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 094/110] fix: constraints that no state and input can change

---
 tulip/abstract/feasible.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index cf8d54b..bcb63d8 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -447,6 +447,10 @@ def poly_to_poly(
     # stack polytope constraints
     L, M = createLM(
         ssys, N, p1, trans_set, p2)
+    # `Polytope` omits rows of zeros
+    zero_rows = np.linalg.norm(L, axis=1) < 1e-10
+    if np.any(M[zero_rows] < 0):
+        return pc.Polytope()
     s0 = pc.Polytope(L, M)
     s0 = pc.reduce(s0)
     # Project polytope s0 onto lower dim
-- 
2.43.0


From 600fb646fccebefb1516344b8b287ca4051a5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 095/110] fix: maps from regions when discretizing
 conservatively

---
 tulip/abstract/discretization.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f707a55..3c4eea7 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -771,7 +771,7 @@ def _discretize_bi(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part) # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -998,8 +998,7 @@ def _discretize_bi(
                 adj[i, r] = 1
                 adj[r, i] = 1
                 adj[r, r] = 1
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
             # adjacency between pieces of `isect` and `diff`
             for r in new_idx:
                 for k in new_idx:
@@ -1286,7 +1285,7 @@ def _discretize_dual(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part)  # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -1452,8 +1451,7 @@ def _discretize_dual(
                 adj[i, new_idx] = 1
                 adj[new_idx, i] = 1
                 adj[new_idx, new_idx] = 1
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
                 if _logger.getEffectiveLevel() <= logging.DEBUG:
                     _logger.debug(
                         f'\t\n Adding states {new_idx}\n')
-- 
2.43.0


From 0873fc49f320e91a2c4080d41e506d5f3d7d826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 096/110] fix: subsystems of regions in dual-simulation

---
 tulip/abstract/discretization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 3c4eea7..c26051d 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1441,6 +1441,8 @@ def _discretize_dual(
                 # add intersection in sol
                 isect_list = pc.separate(isect)
                 sol.append(isect_list[0])
+                if ispwa:
+                    subsys_list.append(subsys_list[i])
                 n_cells = len(sol)
                 new_idx = n_cells-1
                 #
-- 
2.43.0


From cfef2fe7ba158759be4d253c75c7f38178bca933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 097/110] fix: `verify_transitions` with open loop

---
 tulip/abstract/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index c26051d..83d6d5f 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -483,7 +483,7 @@ class AbstractPwa:
             i, from_region = self.ts2ppp(from_state)
             j, to_region = self.ts2ppp(to_state)
             trans_set, sys = self.ppp2trans(i)
-            params = {'N', 'close_loop', 'use_all_horizon'}
+            params = {'N', 'closed_loop', 'use_all_horizon'}
             disc_params = {
                 k: v
                 for k, v in self.disc_params.items()
-- 
2.43.0


From 32c6e2a9777b443b1c1dfc18a4a5161728e7a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 098/110] fix: set of intermediate states when verifying
 transitions

---
 tulip/abstract/discretization.py | 2 ++
 tulip/abstract/feasible.py       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 83d6d5f..9f474be 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -483,6 +483,8 @@ class AbstractPwa:
             i, from_region = self.ts2ppp(from_state)
             j, to_region = self.ts2ppp(to_state)
             trans_set, sys = self.ppp2trans(i)
+            if self.disc_params.get('conservative'):
+                trans_set = None
             params = {'N', 'closed_loop', 'use_all_horizon'}
             disc_params = {
                 k: v
diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index bcb63d8..2acb661 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -444,6 +444,9 @@ def poly_to_poly(
     p2 = p2.copy()
     if trans_set is None:
         trans_set = p1
+    if len(trans_set) == 1:
+        # `Region` of one `Polytope`
+        trans_set = trans_set[0]
     # stack polytope constraints
     L, M = createLM(
         ssys, N, p1, trans_set, p2)
-- 
2.43.0


From 56a30536ac92512a985247b773c94a87d05e5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 099/110] fix: adjacency of parts of split regions

---
 tulip/abstract/discretization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 9f474be..1014fa1 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -997,8 +997,9 @@ def _discretize_bi(
                 (0, num_new),
                 'constant')
             for r in new_idx:
-                adj[i, r] = 1
-                adj[r, i] = 1
+                if pc.is_adjacent(sol[i], sol[r]):
+                    adj[i, r] = 1
+                    adj[r, i] = 1
                 adj[r, r] = 1
                 orig = np.hstack([orig, orig[i]])
             # adjacency between pieces of `isect` and `diff`
-- 
2.43.0


From e5a8a3d88d37fdf612b6cb73a3f247904bf6746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 100/110] fix: `remove_trans` in dual-simulation

---
 tulip/abstract/discretization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 1014fa1..00960f9 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1448,6 +1448,10 @@ def _discretize_dual(
                     subsys_list.append(subsys_list[i])
                 n_cells = len(sol)
                 new_idx = n_cells-1
+                transitions = np.pad(
+                    transitions,
+                    (0, 1),
+                    'constant')
                 #
                 # Update adjacency matrix
                 old_adj = np.nonzero(adj[i, :])[0]
@@ -1472,10 +1476,6 @@ def _discretize_dual(
                         transitions[new_idx, k] = 0
                         transitions[k, new_idx] = 0
                 # Update transition matrix
-                transitions = np.pad(
-                    transitions,
-                    (0, 1),
-                    'constant')
                 adj_k = reachable_within(trans_length, adj, adj)
                 # transitions `i` ---> `k` for `k` is
                 # neighbor of `new_idx` should be
-- 
2.43.0


From 52c43d1b515a2befd2d064bb0966d2a58e101f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 101/110] fix: trajectories that remain in smaller regions

---
 tulip/abstract/discretization.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 00960f9..512808b 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -979,7 +979,11 @@ def _discretize_bi(
                 transitions[j, r] = 0
             # `sol[j]` is reachable from
             # intersection of `sol[i]` and `S0`
-            if i != j:
+            if conservative and N > 1:
+                # intermediate states can be
+                # outside the new `sol[i]`
+                transitions[:, i] = 0
+            elif i != j:
                 transitions[j, i] = 1
                 # `sol[j]` is reachable from
                 # each piece of `S0 \cap sol[i]`
@@ -1432,7 +1436,8 @@ def _discretize_dual(
                     _logger.info(
                         f'Found: {idx} ---> {j} '
                         'intersection exists.\n')
-                    transitions[j, idx] = 1
+                    if not conservative or N == 1:
+                        transitions[j, idx] = 1
                     check_isect = True
             if not check_isect:
                 # Make sure new areas are Regions
@@ -1480,14 +1485,17 @@ def _discretize_dual(
                 # transitions `i` ---> `k` for `k` is
                 # neighbor of `new_idx` should be
                 # kept by `new_idx`
-                transitions[:, new_idx
-                    ] = np.multiply(
-                        transitions[:, i],
-                        adj_k[:, i])
-                # if `j` and `new_idx` are neighbors,
-                # then add `new_idx` ---> `j`
-                if adj_k[j, new_idx] != 0:
-                    transitions[j, new_idx] = 1
+                # (except when intermediate states
+                # can be outside `sol[new_idx]`)
+                if not conservative or N == 1:
+                    transitions[:, new_idx
+                        ] = np.multiply(
+                            transitions[:, i],
+                            adj_k[:, i])
+                    # if `j` and `new_idx` are neighbors,
+                    # then add `new_idx` ---> `j`
+                    if adj_k[j, new_idx] != 0:
+                        transitions[j, new_idx] = 1
                 #
                 # Update IJ matrix
                 IJ = np.pad(IJ, (0, 1), 'constant')
-- 
2.43.0


From 05a22ba9f04360ae850e0f3ef1a9660eff35dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 102/110] fix: disconnected intersections in dual-simulation

---
 tulip/abstract/discretization.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 512808b..15d4e20 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1439,6 +1439,7 @@ def _discretize_dual(
                     if not conservative or N == 1:
                         transitions[j, idx] = 1
                     check_isect = True
+            isect_list = list()
             if not check_isect:
                 # Make sure new areas are Regions
                 # and add proposition lists
@@ -1446,8 +1447,19 @@ def _discretize_dual(
                     isect = pc.Region([isect], si.props)
                 else:
                     isect.props = si.props.copy()
-                # add intersection in sol
-                isect_list = pc.separate(isect)
+                # which parts of intersection are new ?
+                for part_isect in pc.separate(isect):
+                    same = [
+                        idx for idx, region in enumerate(sol)
+                        if region == part_isect]
+                    if not same:
+                        isect_list.append(part_isect)
+                    elif not conservative or N == 1:
+                        transitions[j, same] = 1
+            if isect_list:
+                # add a part of intersection in `sol`,
+                # any other new parts are added
+                # when `i`, `j` are considered again
                 sol.append(isect_list[0])
                 if ispwa:
                     subsys_list.append(subsys_list[i])
-- 
2.43.0


From 5b17068b4d6a02528726a2dbc9c736745241a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:10 +0000
Subject: [PATCH 103/110] fix: abstractions of switched systems with modes that
 are not strings

---
 tulip/abstract/discretization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 15d4e20..03f20f6 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2048,7 +2048,6 @@ def merge_abstractions(
                 env_actions=str(e),
                 sys_actions=str(s))
             for e, s in modes}
-        env_actions, sys_actions = zip(*modes)
         sys_ts.env_actions.add_from(env_actions)
         sys_ts.sys_actions.add_from(sys_actions)
     for mode in modes:
-- 
2.43.0


From cf9595b0962beed6e0931991ab6cc6d1d29cd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:10 +0000
Subject: [PATCH 104/110] fix: default parameters when discretizing switched
 systems

---
 tulip/abstract/discretization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 03f20f6..7ae8322 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1920,11 +1920,13 @@ def discretize_switched(
         abstracted dynamics,
         some attributes are `dict` keyed by mode
     """
-    if disc_params is None:
-        disc_params = dict(N=1, trans_length=1)
     _logger.info('discretizing hybrid system')
     modes = list(hybrid_sys.modes)
     mode_nums = hybrid_sys.disc_domain_size
+    if disc_params is None:
+        disc_params = {
+            mode: dict(N=1, trans_length=1)
+            for mode in modes}
     # discretize each abstraction separately
     abstractions = dict()
     for mode in modes:
-- 
2.43.0


From 68e80d05a598eb10921032f2ab47d87c64051082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:10 +0000
Subject: [PATCH 105/110] fix: parameters of parallel discretization of
 switched systems

---
 tulip/abstract/discretization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 7ae8322..447b72a 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1863,7 +1863,9 @@ def multiproc_discretize_switched(
     # find feasible transitions over merged partition
     for mode in modes:
         cont_dyn = hybrid_sys.dynamics[mode]
-        params = disc_params[mode]
+        params = dict(
+            N=disc_params[mode]['N'],
+            trans_length=disc_params[mode]['trans_length'])
         mode_args[mode] = (
             q, merged_abstr, mode, cont_dyn, params)
     jobs = [
-- 
2.43.0


From 0aa3072915dfa4e06ab8d50ac916fa2ca410e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 106/110] fix: control inputs when the weight of the final
 state is zero

---
 tulip/abstract/find_controller.py | 41 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index c31ca6b..24821b5 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -350,26 +350,27 @@ def get_input(
                     )
                 ] += mid_weight * np.eye(n)
                 r[idx, 0] += -mid_weight * xc
-                try:
-                    u, cost = get_input_helper(
-                        x0, ssys, P1, P3, N, R, r, Q, ord,
-                        closed_loop=closed_loop,
-                        solver=solver)
-                except _InputHelperLPException as ex:
-                    # The end state might consist of several polytopes.
-                    # For some of them there might not be a control action that
-                    # brings the system there. In that case the matrix
-                    # constructed by get_input_helper will be singular and the
-                    # LP solver cannot return a solution.
-                    # This is not a problem unless all polytopes in the end
-                    # region are unreachable, in which case it seems likely that
-                    # there is something wrong with the abstraction routine.
-                    _logger.info(repr(ex))
-                    _logger.info(
-                        'Failed to find control action from continuous '
-                        f'state {x0} in discrete state {start} '
-                        f'to a target polytope in the discrete state {end}.\n'
-                        f'Target polytope:\n{P3}')
+            try:
+                u, cost = get_input_helper(
+                    x0, ssys, P1, P3, N, R, r, Q, ord,
+                    closed_loop=closed_loop,
+                    solver=solver)
+            except _InputHelperLPException as ex:
+                # The end state might consist of several polytopes.
+                # For some of them there might not be a control action that
+                # brings the system there. In that case the matrix
+                # constructed by get_input_helper will be singular and the
+                # LP solver cannot return a solution.
+                # This is not a problem unless all polytopes in the end
+                # region are unreachable, in which case it seems likely that
+                # there is something wrong with the abstraction routine.
+                _logger.info(repr(ex))
+                _logger.info(
+                    'Failed to find control action from continuous '
+                    f'state {x0} in discrete state {start} '
+                    f'to a target polytope in the discrete state {end}.\n'
+                    f'Target polytope:\n{P3}')
+            if mid_weight > 0:
                 r[idx, 0] += mid_weight * xc
             if cost < low_cost:
                 low_u = u
-- 
2.43.0


From a52dad0adecf6a84aaba03f67557623e4c3fba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 107/110] fix: set of intermediate states when computing
 control inputs

---
 tulip/abstract/find_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 24821b5..b4c44bc 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -250,8 +250,9 @@ def get_input(
     part = abstraction.ppp
     regions = part.regions
     ofts = abstraction.ts
-    original_regions = abstraction.orig_ppp
-    orig = abstraction._ppp2orig
+    # each contained in the domain of one subsystem
+    original_regions = abstraction.pwa_ppp
+    orig = abstraction._ppp2pwa
     params = abstraction.disc_params
     N = params['N']  # horizon length
     conservative = params['conservative']
-- 
2.43.0


From a91c8d95672ed08c126ea5d33d6950f115a6d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 108/110] fix: cost of control inputs

---
 tulip/abstract/find_controller.py | 123 ++++++++++++++----------------
 1 file changed, 59 insertions(+), 64 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index b4c44bc..cffadb4 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -307,7 +307,6 @@ def get_input(
     P_end = regions[end]
     n = ssys.A.shape[1]
     m = ssys.B.shape[1]
-    idx = range((N - 1) * n, N * n)
     if conservative:
         # Take convex hull or P_start as constraint
         if len(P_start) > 0:
@@ -342,20 +341,14 @@ def get_input(
         # for each polytope in target region
         for P3 in P_end:
             cost = np.inf
-            if mid_weight > 0:
-                rc, xc = pc.cheby_ball(P3)
-                R[
-                    np.ix_(
-                        range(n * (N - 1), n * N),
-                        range(n * (N - 1), n * N)
-                    )
-                ] += mid_weight * np.eye(n)
-                r[idx, 0] += -mid_weight * xc
+            rc, xc = pc.cheby_ball(P3)
             try:
                 u, cost = get_input_helper(
                     x0, ssys, P1, P3, N, R, r, Q, ord,
                     closed_loop=closed_loop,
-                    solver=solver)
+                    solver=solver,
+                    mid_weight=mid_weight,
+                    xc=xc)
             except _InputHelperLPException as ex:
                 # The end state might consist of several polytopes.
                 # For some of them there might not be a control action that
@@ -371,8 +364,6 @@ def get_input(
                     f'state {x0} in discrete state {start} '
                     f'to a target polytope in the discrete state {end}.\n'
                     f'Target polytope:\n{P3}')
-            if mid_weight > 0:
-                r[idx, 0] += mid_weight * xc
             if cost < low_cost:
                 low_u = u
                 low_cost = cost
@@ -381,19 +372,13 @@ def get_input(
                 'Did not find any trajectory')
     else:
         P3 = P_end
-        if mid_weight > 0:
-            rc, xc = pc.cheby_ball(P3)
-            R[
-                np.ix_(
-                    range(n * (N - 1), n * N),
-                    range(n * (N - 1), n * N)
-                )
-            ] += mid_weight * np.eye(n)
-            r[idx, 0] += -mid_weight * xc
+        rc, xc = pc.cheby_ball(P3)
         low_u, cost = get_input_helper(
             x0, ssys, P1, P3, N, R, r, Q, ord,
             closed_loop=closed_loop,
-            solver=solver)
+            solver=solver,
+            mid_weight=mid_weight,
+            xc=xc)
     return low_u
 
 
@@ -420,6 +405,11 @@ def get_input_helper(
             bool=True,
         solver:
             SolverName |
+            None=None,
+        mid_weight:
+            float=0.0,
+        xc:
+            Point |
             None=None
         ) -> np.ndarray:
     r"""Compute sequence of control inputs.
@@ -491,42 +481,36 @@ def get_input_helper(
         )] = A_row
         A_it = ssys.A.dot(A_it)
     Ct = A_K.dot(B_diag)
+    # x = x_const + Ct*u
+    x_const = (
+        A_N.dot(np.reshape(x0, (n, 1))) +
+        A_K.dot(K_hat))
+    # R*x stacked with mid_weight*(x(N) - xc), as  R1*Ct*u + s
+    weight = mid_weight
+    if ord == 2:
+        # squared below
+        weight = np.sqrt(mid_weight)
+    R1 = np.vstack((
+        R,
+        weight * np.eye(N * n)[(N - 1) * n:, :]))
+    s = R1.dot(x_const)
+    if mid_weight > 0:
+        s[N * n:, 0] -= weight * xc
     if ord == 1:
         # f(\epsilon,u) = sum(\epsilon)
-        c_LP = np.hstack((np.ones((1, N * (n + m))), r.T.dot(Ct)))
-        # Constraints -\epsilon_r < R*x <= \epsilon_r
-        # Constraints -\epsilon_u < Q*u <= \epsilon_u
-        # x = A_N*x0 + Ct*u --> ignore the first constant part
-        # x  = Ct*u
-        G_LP = np.vstack((
-            np.hstack((- np.eye(N * n),
-                       np.zeros((N * n, N * m)),
-                       - R.dot(Ct))),
-            np.hstack((- np.eye(N * n),
-                       np.zeros((N * n, N * m)),
-                       R.dot(Ct))),
-            np.hstack((np.zeros((N * m, N * n)),
-                       - np.eye(N * m), -Q)),
-            np.hstack((np.zeros((N * m, N * n)),
-                       - np.eye(N * m), Q)),
-            np.hstack((np.zeros((Lu.shape[0], N * n + N * m)), Lu))
-        ))
-        h_LP = np.vstack((np.zeros((2 * N * (n + m), 1)), M))
+        eps_r = np.eye(N * n + n)
+        eps_u = np.eye(N * m)
     elif ord == 2:
         assert_cvxopt()
         # symmetrize
         Q2 = Q.T.dot(Q)
-        R2 = R.T.dot(R)
+        R2 = R1.T.dot(R1)
         # constraints
         G = _cvx.matrix(Lu)
         h = _cvx.matrix(M)
         P = _cvx.matrix(Q2 + Ct.T.dot(R2).dot(Ct))
         q = _cvx.matrix(
-            np.dot(
-                np.dot(x0.reshape(1, x0.size), A_N.T) +
-                A_K.dot(K_hat).T,
-                R2.dot(Ct)
-            ) +
+            s.T.dot(R1).dot(Ct) +
             0.5 * r.T.dot(Ct)
         ).T
         if solver != None:
@@ -539,24 +523,35 @@ def get_input_helper(
                 'QP solver finished with status ' +
                 str(sol['status']))
         u = np.array(sol['x']).flatten()
-        cost = sol['primal objective']
+        cost = sol['primal objective'] + 0.5 * np.sum(s**2)
         return u.reshape(N, m), cost
     elif ord == np.inf:
-        c_LP = np.hstack((np.ones((1, 2)), r.T.dot(Ct)))
-        G_LP = np.vstack((
-            np.hstack((-np.ones((N * n, 1)),
-                       np.zeros((N * n, 1)),
-                       -R.dot(Ct))),
-            np.hstack((-np.ones((N * n, 1)),
-                       np.zeros((N * n, 1)),
-                       R.dot(Ct))),
-            np.hstack((np.zeros((N * m, 1)),
-                       -np.ones((N * m, 1)), -Q)),
-            np.hstack((np.zeros((N * m, 1)),
-                       -np.ones((N * m, 1)), Q)),
-            np.hstack((np.zeros((Lu.shape[0], 2)), Lu))
-        ))
-        h_LP = np.vstack((np.zeros((2 * N * (n + m), 1)), M))
+        eps_r = _fsb._block_diag2(
+            np.ones((N * n, 1)),
+            np.ones((n, 1)))
+        eps_u = np.ones((N * m, 1))
+    n_r = eps_r.shape[1]
+    n_u = eps_u.shape[1]
+    c_LP = np.hstack((np.ones((1, n_r + n_u)), r.T.dot(Ct)))
+    # Constraints -\epsilon_r <= R1*Ct*u + s <= \epsilon_r
+    # Constraints -\epsilon_u <= Q*u <= \epsilon_u
+    G_LP = np.vstack((
+        np.hstack((- eps_r,
+                   np.zeros((N * n + n, n_u)),
+                   - R1.dot(Ct))),
+        np.hstack((- eps_r,
+                   np.zeros((N * n + n, n_u)),
+                   R1.dot(Ct))),
+        np.hstack((np.zeros((N * m, n_r)),
+                   - eps_u, -Q)),
+        np.hstack((np.zeros((N * m, n_r)),
+                   - eps_u, Q)),
+        np.hstack((np.zeros((Lu.shape[0], n_r + n_u)), Lu))
+    ))
+    h_LP = np.vstack((
+        s, - s,
+        np.zeros((2 * N * m, 1)),
+        M))
     sol = pc.polytope.lpsolve(
         c_LP.flatten(), G_LP, h_LP,
         solver=solver)
-- 
2.43.0


From c64eb10cd2878f90ebf63dc55cac33365714aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 109/110] fix: points that `is_seq_inside` checks

---
 tulip/abstract/find_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index cffadb4..0e8104e 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -623,11 +623,11 @@ def is_seq_inside(
     for i in range(N - 1):
         u = u_seq[i, :].reshape(u_seq[i, :].size, 1)
         x = A.dot(x) + B.dot(u) + K
-        if not pc.is_inside(P0, x):
+        if x.flatten() not in P0:
             inside = False
     un_1 = u_seq[N - 1, :].reshape(u_seq[N - 1, :].size, 1)
     xn = A.dot(x) + B.dot(un_1) + K
-    if not pc.is_inside(P1, xn):
+    if xn.flatten() not in P1:
         inside = False
     return inside
 
-- 
2.43.0


From 77ac489798f6e06c0b72ed27278b3f1f8fc6c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 110/110] fix: control inputs when a part of the target is
 unreachable

---
 tulip/abstract/find_controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 0e8104e..3dd2b38 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -441,6 +441,9 @@ def get_input_helper(
                 P1, temp_part, ssys, N=1,
                 closed_loop=False, trans_set=P1
             )
+            if not pc.is_fulldim(temp_part):
+                raise _InputHelperLPException(
+                    'target polytope is unreachable')
             list_P.insert(0, temp_part)
         list_P.insert(0, P1)
         L, M = _fsb.createLM(ssys, N, list_P, disturbance_ind=[1])
-- 
2.43.0

