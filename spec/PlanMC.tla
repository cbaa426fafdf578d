------------------------------- MODULE PlanMC -------------------------------
(* Theorems about Plan, checked exhaustively for small instances:           *)
(*  - the order on vectors is total and compatible with addition;           *)
(*  - settling nodes by increasing cost (Dijkstra) yields the least costs,  *)
(*    explored as a transition system, over all small graphs;               *)
(*  - the shortest path in the weighted product costs as much as the plan   *)
(*    that is best by the definition (letters vanish from its word).        *)
EXTENDS Plan

VARIABLES mode, g, settled, dist

Vecs == {<<a, b>>: a, b \in 0..2}
Order == \A a, b, c \in Vecs:
    /\ (LexLess(a, b) \/ a = b \/ LexLess(b, a)) /\ ~ LexLess(a, a)
    /\ ~ (LexLess(a, b) /\ LexLess(b, a))
    /\ (LexLess(a, b) /\ LexLess(b, c)) => LexLess(a, c)
    /\ LexLess(a, b) <=> LexLess(Plus(a, c), Plus(b, c))
    /\ LexLeq(a, Plus(a, c))

N == 1..3
Pairs == {p \in N \X N: p[1] # p[2] /\ p[2] # 1}
Weights == {Inf, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 2>>}
Graph(f) == {[u |-> p[1], v |-> p[2], c |-> f[p]]: p \in {x \in Pairs: f[x] # Inf}}

(* systems of two states, rules of two states, letters {} and {"p"} *)
Letters == {{}, {"p"}}
KSEdges == {<<1, 1, 1>>, <<1, 2, 0>>, <<2, 1, 1>>, <<2, 2, 0>>}
RuleEdges == {<<q, l, p>>: q \in 1..2, l \in Letters, p \in 1..2}

Init == /\ settled = {} /\ dist = <<>>
    /\ \/ mode = "order" /\ g = {}
       \/ mode = "graph seed" /\ g \in {<<a, b>>: a, b \in Weights}
       \/ mode = "plan seed" /\ g \in (SUBSET KSEdges) \X {1, 2}

Bound == 4
Spread == \* expand seeds
    \/ /\ mode = "graph seed" /\ mode' = "dijkstra"
       /\ \E f \in [Pairs -> Weights]:
            /\ f[<<1, 2>>] = g[1] /\ f[<<1, 3>>] = g[2]
            /\ g' = Graph(f)
       /\ settled' = {} /\ dist' = Start(N, {1}, 2)
    \/ /\ mode = "plan seed" /\ mode' = "plan" /\ UNCHANGED <<settled, dist>>
       /\ \E E \in SUBSET RuleEdges, A \in {{1}, {2}, {1, 2}}:
            /\ Cardinality(E) <= 4
            /\ g' = [ks |-> [n |-> 2, edges |-> g[1], ap |-> <<{}, {"p"}>>, init |-> {1}],
                rules |-> IF g[2] = 1
                    THEN <<[n |-> 2, edges |-> E, init |-> {1}, acc |-> A, prio |-> 2, level |-> 0]>>
                    ELSE <<[n |-> 2, edges |-> E, init |-> {1}, acc |-> A, prio |-> 2, level |-> 1],
                           [n |-> 1, edges |-> {<<1, {}, 1>>}, init |-> {1}, acc |-> {1},
                            prio |-> 1, level |-> 0]>>]

Open == {x \in N \ settled: dist[x] # Inf}
Settle == \* one iteration of the search
    /\ mode = "dijkstra"
    /\ \E x \in Open:
        /\ \A y \in Open: LexLeq(dist[x], dist[y])
        /\ settled' = settled \union {x}
        /\ dist' = [y \in N |-> IF y \in settled THEN dist[y] ELSE
            MinOf((IF dist[y] = Inf THEN {} ELSE {dist[y]})
                \union {Plus(dist[x], e.c): e \in {f \in g: f.u = x /\ f.v = y}})]
    /\ UNCHANGED <<mode, g>>
Next == Spread \/ Settle

RECURSIVE PathsFrom(_, _)
PathsFrom(ks, k) == IF k = 1 THEN {<<s>>: s \in ks.init} ELSE
    LET shorter == PathsFrom(ks, k - 1)
    IN {Append(p, e[2]): p \in {q \in shorter: TRUE}, e \in ks.edges}
Paths(ks) == {p \in UNION {PathsFrom(ks, k): k \in 1..Bound}: IsPath(ks, p)}

ThOrder == mode = "order" => Order
ThSettled == mode = "dijkstra" =>
    LET opt == FixDist(N, g, Start(N, {1}, 2))
    IN /\ \A x \in settled: dist[x] = opt[x]
       /\ Open = {} => \A x \in N: dist[x] = opt[x]
ThPlan == mode = "plan" =>
    LET ks == g.ks  rules == g.rules
        nlev == Len(rules)
        E == TLCEval(ProductEdges(ks, rules, nlev))
        PN == ProductNodes(rules, E)
        bounded == Least(PN, Goals(ks, rules, "p"),
            Steps(PN, E, Start(PN, ProductInit(rules), nlev + 1), Bound))
        direct == MinOf({PathCost(ks, rules, nlev, p):
            p \in {q \in Paths(ks): "p" \in ks.ap[q[Len(q)]]}} \ {Inf})
    IN bounded = direct
=============================================================================
