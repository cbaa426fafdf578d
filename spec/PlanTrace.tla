------------------------------ MODULE PlanTrace ------------------------------
(* Observations of VectorCost, of the shortest-path search, and of         *)
(* minimum-violation planning, checked against Plan.                       *)
EXTENDS Plan, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad

S(seq) == {seq[k]: k \in 1..Len(seq)}
If(c, name) == IF c THEN {} ELSE {name}

(* ---- comparisons and sums of two vectors (a number is repeated) ---- *)
Order(r) == LET a == r.a  b == r.b IN
    If(r.lt = LexLess(a, b), "lt") \union If(r.le = LexLeq(a, b), "le")
    \union If(r.gt = LexLess(b, a), "gt") \union If(r.ge = LexLeq(b, a), "ge")
    \union If(r.eq = (a = b), "eq") \union If(r.ne = (a # b), "ne")
    \union If(r.sum = Plus(a, b), "sum") \union If(r.rsum = Plus(a, b), "rsum")
    \union If(r.same, "operands changed")
Sorted(r) == If(\A k \in 1..(Len(r.out) - 1): LexLeq(r.out[k], r.out[k + 1]), "sorted")
    \union If(Len(r.out) = Len(r.in) /\ \A x \in S(r.in) \union S(r.out):
        Cardinality({k \in 1..Len(r.in): r.in[k] = x})
        = Cardinality({k \in 1..Len(r.out): r.out[k] = x}), "permutation")
    \union If(r.in # <<>> => (r.min = MinOf(S(r.in))), "min")

(* ---- shortest paths ---- *)
RECURSIVE Attains(_, _, _)
Attains(E, path, c) ==
    IF Len(path) = 1 THEN c = Zero(Len(c)) ELSE
    LET n == Len(path) IN
    \E e \in {f \in E: f.u = path[n - 1] /\ f.v = path[n]}:
        /\ \A k \in 1..Len(c): e.c[k] <= c[k]
        /\ Attains(E, SubSeq(path, 1, n - 1), [k \in 1..Len(c) |-> c[k] - e.c[k]])
Search(r) ==
    LET N == 1..r.n
        E == {[u |-> e[1], v |-> e[2], c |-> e[3]]: e \in S(r.edges)}
        opt == Opt(N, E, S(r.src), S(r.tgt), r.d)
    IN IF r.exc # "" THEN {"exception"} ELSE
       If(r.cost = opt, "cost")
       \union (IF opt = Inf THEN If(r.path = <<>>, "path") ELSE
            If(/\ r.path # <<>> /\ S(r.path) \subseteq N
               /\ r.path[1] \in S(r.src) /\ r.path[Len(r.path)] \in S(r.tgt)
               /\ (r.cost # Inf => Attains(E, r.path, r.cost)), "path"))
       \union If(r.same, "graph changed")

(* ---- plans ---- *)
Plan(r) ==
    LET ks == [n |-> r.n, edges |-> S(r.edges), init |-> S(r.init),
               ap |-> [k \in 1..r.n |-> S(r.ap[k])]]
        rules == [k \in 1..Len(r.rules) |-> LET x == r.rules[k] IN
            [n |-> x.n, init |-> S(x.init), acc |-> S(x.acc), prio |-> x.prio,
             level |-> x.level, edges |-> {<<e[1], S(e[2]), e[3]>>: e \in S(x.edges)}]]
        nlev == r.nlev
        E == TLCEval(ProductEdges(ks, rules, nlev))
        PN == ProductNodes(rules, E)
        G == Goals(ks, rules, r.goal)
        opt == Opt(PN, E, ProductInit(rules), G, nlev + 1)
        pp == r.ppath
    IN IF r.exc # "" THEN {"exception"} ELSE
       If(r.cost = opt, "cost")
       \union (IF opt = Inf THEN If(r.path = <<>> /\ pp = <<>>, "path") ELSE
           If(/\ S(r.path) \subseteq 1..r.n /\ IsPath(ks, r.path)
              /\ r.goal \in ks.ap[r.path[Len(r.path)]], "path")
           \union (IF S(r.path) \subseteq 1..r.n /\ IsPath(ks, r.path)
                THEN If(PathCost(ks, rules, nlev, r.path) = r.cost, "violations of the path")
                ELSE {})
           \union If(/\ pp # <<>> /\ r.path = [k \in 1..(Len(pp) - 1) |-> pp[k + 1][1]]
                     /\ pp[1] \in ProductInit(rules) /\ pp[Len(pp)] \in G
                     /\ (r.cost # Inf => Attains(E, pp, r.cost)), "product path"))
       \* the product that is returned: the runs from its initial states
       \union (LET W == {[u |-> e[1], v |-> e[2], c |-> e[3]]: e \in S(r.wedges)}
               IN If({e \in W: e.u \in PN} = E, "product transitions"))
       \union If(S(r.winit) = ProductInit(rules), "product initial")
       \union If(S(r.wacc) \cap PN \cap {x \in PN: x[1] # 0}
            = {x \in PN: x[1] # 0 /\ x[2] \in RuleAcc(rules)}, "product accepting")
       \union If(r.same, "arguments changed")

(* ---- the prioritized specification as a sequence of rules ---- *)
RECURSIVE ByLevel(_, _, _)
ByLevel(added, l, top) == IF l > top THEN <<>> ELSE
    SelectSeq(added, LAMBDA x: x[3] = l) \o ByLevel(added, l + 1, top)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
PrioSpec(r) ==
    LET top == IF r.added = <<>> THEN -1
            ELSE CHOOSE l \in {x[3]: x \in S(r.added)}: \A x \in S(r.added): x[3] <= l
        all == ByLevel(r.added, 0, top)
    IN If(r.iter = all, "iteration") \union If(r.items = all, "items")
       \union If(r.rules = all, "get_rules") \union If(r.len = Len(all), "len")
       \union If(r.nlev = top + 1, "levels")
       \union If(\A l \in 1..Len(r.at): r.at[l] = SelectSeq(r.added, LAMBDA x: x[3] = l - 1), "rules at level")
       \union If(r.end = "IndexError", "index out of range")

Verdict(r) == CASE r.kind = "order" -> Order(r)
    [] r.kind = "sorted" -> Sorted(r)
    [] r.kind = "search" -> Search(r)
    [] r.kind = "plan" -> Plan(r)
    [] r.kind = "spec" -> PrioSpec(r)

Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
