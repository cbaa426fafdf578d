------------------------------- MODULE LGraph -------------------------------
(* Labeled directed graphs with typed labels, initial and accepting states:    *)
(* the common state of LabeledDiGraph, FTS, Kripke structures, Markov models,  *)
(* automata, Mealy and Moore machines, and game graphs.                        *)
(*                                                                             *)
(* A label is a sequence of pairs <<k, v>>, with k the index of a label type   *)
(* (0: a name that has no type), in increasing order of k, and v a sequence of *)
(* atoms: the sorted elements of a set for powerset types, else one atom.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Has(l, k) == \E i \in 1..Len(l) : l[i][1] = k
Val(l, k) == l[CHOOSE i \in 1..Len(l) : l[i][1] = k][2]

(* c: [nt, et |-> sequences of [power, any, hasdef, def, dom, order], acc |-> BOOLEAN]; *)
(* order: all atoms of a powerset type, sorted                                        *)
Start(c) == [V |-> {}, L |-> <<>>, E |-> {}, I |-> {}, A |-> {},
             nd |-> [k \in 1..Len(c.nt) |-> Range(c.nt[k].dom)],
             ed |-> [k \in 1..Len(c.et) |-> Range(c.et[k].dom)]]

ValidValue(t, dom, v) ==
    \/ t.any
    \/ Range(v) \subseteq dom /\ (t.power \/ Len(v) = 1)
ValidLabel(ts, doms, l) ==
    \A i \in 1..Len(l) : l[i][1] # 0 /\ ValidValue(ts[l[i][1]], doms[l[i][1]], l[i][2])

(* `over` takes precedence over `base`; both are sorted label sequences *)
RECURSIVE Merge(_, _, _, _)
Merge(n, k, base, over) ==
    IF k > n THEN <<>>
    ELSE (IF Has(over, k) THEN <<<<k, Val(over, k)>>>>
          ELSE IF Has(base, k) THEN <<<<k, Val(base, k)>>>> ELSE <<>>)
         \o Merge(n, k + 1, base, over)
RECURSIVE Defs(_, _)
Defs(ts, k) == IF k > Len(ts) THEN <<>>
               ELSE (IF ts[k].hasdef THEN <<<<k, ts[k].def>>>> ELSE <<>>) \o Defs(ts, k + 1)
WithDefaults(ts, l) == Merge(Len(ts), 1, Defs(ts, 1), l)

Ok(st) == [ok |-> TRUE, st |-> st]
Rej(st) == [ok |-> FALSE, st |-> st]

AddState(c, st, s, l) ==
    LET new == WithDefaults(c.nt, l)
        old == IF s \in st.V THEN st.L[s] ELSE <<>>
        lab == Merge(Len(c.nt), 1, old, new)
    IN IF ~ValidLabel(c.nt, st.nd, l) THEN Rej(st)
       ELSE Ok([st EXCEPT !.V = @ \cup {s},
                          !.L = [x \in st.V \cup {s} |-> IF x = s THEN lab ELSE st.L[x]]])
Between(st, a, b) == {e \in st.E : e[1] = a /\ e[2] = b}
AddEdge(c, st, a, b, l) ==
    LET lab == WithDefaults(c.et, l)
    IN IF a \notin st.V \/ b \notin st.V \/ ~ValidLabel(c.et, st.ed, l)
          \/ <<a, b, <<>>>> \in st.E
       THEN Rej(st)
       ELSE Ok([st EXCEPT !.E = @ \cup {<<a, b, lab>>}])
DropStates(st, S) ==
    [st EXCEPT !.V = @ \ S, !.L = [x \in st.V \ S |-> st.L[x]],
               !.E = {e \in @ : e[1] \notin S /\ e[2] \notin S},
               !.I = @ \ S, !.A = @ \ S]

(* states with an infinite path: greatest fixpoint *)
RECURSIVE LiveFrom(_, _)
LiveFrom(E, X) == LET Y == {s \in X : \E e \in E : e[1] = s /\ e[2] \in X}
                  IN IF Y = X THEN X ELSE LiveFrom(E, Y)
Live(st) == LiveFrom(st.E, st.V)
HasDeadends(st) == \E s \in st.V : ~\E e \in st.E : e[1] = s

RECURSIVE Bulk(_, _, _, _)
Step(c, st, o) ==
    CASE o.op = "node" -> AddState(c, st, o.s, o.l)
      [] o.op = "edge" -> AddEdge(c, st, o.a, o.b, o.l)
      [] o.op = "rmnode" -> IF o.s \in st.V THEN Ok(DropStates(st, {o.s})) ELSE Rej(st)
      [] o.op = "rmedge" -> Ok([st EXCEPT !.E = @ \ {<<o.a, o.b, o.l>>}])
      [] o.op = "rmedges" -> Ok([st EXCEPT !.E = @ \ Between(st, o.a, o.b)])
      [] o.op = "init+" -> IF Range(o.ss) \subseteq st.V
                           THEN Ok([st EXCEPT !.I = @ \cup Range(o.ss)]) ELSE Rej(st)
      [] o.op = "init-" -> IF o.s \in st.I THEN Ok([st EXCEPT !.I = @ \ {o.s}]) ELSE Rej(st)
      [] o.op = "acc+" -> IF Range(o.ss) \subseteq st.V
                          THEN Ok([st EXCEPT !.A = @ \cup Range(o.ss)]) ELSE Rej(st)
      [] o.op = "acc-" -> IF o.s \in st.A THEN Ok([st EXCEPT !.A = @ \ {o.s}]) ELSE Rej(st)
      [] o.op = "relabel" ->
            IF o.s \in st.V /\ ValidValue(c.nt[o.k], st.nd[o.k], o.v)
            THEN Ok([st EXCEPT !.L[o.s] = Merge(Len(c.nt), 1, @, <<<<o.k, o.v>>>>)])
            ELSE Rej(st)
      (* in-place update of a set of propositions *)
      [] o.op = "mut" ->
            LET new == SelectSeq(c.nt[o.k].order,
                           LAMBDA a : a \in Range(Val(st.L[o.s], o.k)) \cup {o.v})
            IN Ok([st EXCEPT !.L[o.s] = Merge(Len(c.nt), 1, @, <<<<o.k, new>>>>)])
      [] o.op = "nval" -> Ok([st EXCEPT !.nd[o.k] = @ \cup {o.v}])
      [] o.op = "eval" -> Ok([st EXCEPT !.ed[o.k] = @ \cup {o.v}])
      [] o.op = "deadends" ->
            IF Live(st) = {} /\ st.V # {} THEN Rej(DropStates(st, st.V))
            ELSE Ok(DropStates(st, st.V \ Live(st)))
      [] o.op = "bulk" -> Bulk(c, st, o.ops, 1)
Bulk(c, st, ops, i) ==
    IF i > Len(ops) THEN Ok(st)
    ELSE LET r == Step(c, st, ops[i]) IN IF r.ok THEN Bulk(c, r.st, ops, i + 1) ELSE r

(* --- queries --- *)
Succ(st, S) == {e[2] : e \in {f \in st.E : f[1] \in S}}
Pred(st, S) == {e[1] : e \in {f \in st.E : f[2] \in S}}
RECURSIVE Closure(_, _, _)
Closure(st, fwd, X) == LET Y == X \cup (IF fwd THEN Succ(st, X) ELSE Pred(st, X))
                       IN IF Y = X THEN X ELSE Closure(st, fwd, Y)
(* label types with guard semantics: a guard matches the values that satisfy it *)
Matches(ts, l, want) ==
    \/ l = want
    \/ /\ Len(l) = Len(want)
       /\ \A i \in DOMAIN l:
            /\ l[i][1] = want[i][1]
            /\ \/ l[i][2] = want[i][2]
               \/ /\ l[i][1] \in DOMAIN ts
                  /\ ts[l[i][1]].guard
                  /\ Range(want[i][2]) \subseteq Range(l[i][2])
(* an unlabeled edge has no labeling constraints, so it matches each label *)
FindEdges(c, st, q) ==
    {e \in st.E : /\ (q.anyfrom \/ e[1] \in Range(q.from))
                  /\ (q.anyto \/ e[2] \in Range(q.to))
                  /\ (q.anylab \/ Matches(c.et, e[3], q.l) \/ e[3] = <<>>)}
FindStates(c, st, q) ==
    {<<s, st.L[s]>> : s \in {x \in st.V : /\ (q.anyfrom \/ x \in Range(q.from))
                                        /\ (q.anylab \/ Matches(c.nt, st.L[x], q.l))}}
Query(c, st, q) ==
    CASE q.q = "states" -> FindStates(c, st, q)
      [] q.q = "edges" -> FindEdges(c, st, q)
      [] q.q = "post" -> Succ(st, Range(q.from))
      [] q.q = "pre" -> Pred(st, Range(q.from))
      [] q.q = "post0" -> st.I
      [] q.q = "fwd" -> Closure(st, TRUE, {q.s}) \ {q.s}
      [] q.q = "bwd" -> Closure(st, FALSE, {q.s}) \ {q.s}
      [] q.q = "terminal" -> {s \in st.V : Succ(st, {s}) = {}}
      [] q.q = "counts" -> {<<"states", Cardinality(st.V)>>, <<"edges", Cardinality(st.E)>>}
      [] q.q = "deadends" -> IF HasDeadends(st) THEN {"yes"} ELSE {"no"}
      [] q.q = "consistent" -> {"yes"}
      [] q.q = "player" -> {s \in st.V : Val(st.L[s], q.k) = q.v}

(* --- invariants --- *)
Consistent(c, st) ==
    /\ DOMAIN st.L = st.V
    /\ st.I \subseteq st.V /\ st.A \subseteq st.V
    /\ \A e \in st.E : e[1] \in st.V /\ e[2] \in st.V /\ ValidLabel(c.et, st.ed, e[3])
    /\ \A s \in st.V : ValidLabel(c.nt, st.nd, st.L[s])
    /\ \A s \in st.V : \A k \in 1..Len(c.nt) : c.nt[k].hasdef => Has(st.L[s], k)
=============================================================================
