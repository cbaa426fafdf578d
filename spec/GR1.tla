---- MODULE GR1 ----
(* GR(1) games with the options of tulip.spec.form.GRSpec, and closed-loop verification of       *)
(* controllers, by explicit enumeration.                                                         *)
(*                                                                                               *)
(* A specification g is a record:                                                                *)
(*   vars: sequence of [own, lo, hi], environment variables first;                               *)
(*   ei, es, ep, si, ss, sp: sequences of formulas (env/sys  init/safety/progress);              *)
(*   moore, plus_one: Booleans; qinit: "AA" | "AE" | "EE" | "EA".                                *)
EXTENDS Formula, TLC

Card(v) == v.hi - v.lo + 1

RECURSIVE Prod(_, _, _)
Prod(vs, a, b) == IF a > b THEN 1 ELSE Card(vs[a]) * Prod(vs, a + 1, b)

\* mixed-radix digit of variable k in the number n (last variable is least significant)
ValOf(vs, n) ==
    [k \in 1..Len(vs) |-> vs[k].lo + ((n \div Prod(vs, k + 1, Len(vs))) % Card(vs[k]))]

RECURSIVE Encode(_, _, _)
Encode(vs, val, k) ==
    IF k = 0 THEN 0
    ELSE Encode(vs, val, k - 1) * Card(vs[k]) + (val[k] - vs[k].lo)

InDomain(vs, val) ==
    /\ Len(val) = Len(vs)
    /\ \A k \in 1..Len(vs) : val[k] >= vs[k].lo /\ val[k] <= vs[k].hi

\* explicit game arena
Arena(g) ==
    LET nenv == Cardinality({k \in 1..Len(g.vars) : g.vars[k].own = "env"})
        nx == Prod(g.vars, 1, nenv)
        ny == Prod(g.vars, nenv + 1, Len(g.vars))
        n == nx * ny
        vals == TLCEval([k \in 1..n |-> TLCEval(ValOf(g.vars, k - 1))])
        ok(fs) == TLCEval({k \in 1..n : AllB(fs, vals[k], vals[k])})
        rel(fs) == TLCEval([k \in 1..n |->
            TLCEval({m \in 1..n : AllB(fs, vals[k], vals[m])})])
    IN [nx |-> nx, ny |-> ny, n |-> n, vals |-> vals,
        ei |-> ok(g.ei), si |-> ok(g.si),
        ea |-> rel(g.es), sa |-> rel(g.ss),
        ep |-> [k \in 1..Len(g.ep) |-> ok(<<g.ep[k]>>)],
        sp |-> [k \in 1..Len(g.sp) |-> ok(<<g.sp[k]>>)],
        moore |-> g.moore, plus_one |-> g.plus_one, qinit |-> g.qinit]

St(G, x, y) == x * G.ny + y + 1
XOf(G, s) == (s - 1) \div G.ny
YOf(G, s) == (s - 1) % G.ny
Xs(G) == 0..(G.nx - 1)
Ys(G) == 0..(G.ny - 1)

\* one step: can the system force `T` from s ?
Step(G, s, T) ==
    LET good(x, y) ==
          LET m == St(G, x, y) IN
          IF G.plus_one
          THEN m \in G.sa[s] /\ (m \in G.ea[s] => m \in T)
          ELSE m \in G.ea[s] => (m \in G.sa[s] /\ m \in T)
    IN IF G.moore
       THEN \E y \in Ys(G) : \A x \in Xs(G) : good(x, y)
       ELSE \A x \in Xs(G) : \E y \in Ys(G) : good(x, y)

CPre(G, T) == TLCEval({s \in 1..G.n : Step(G, s, T)})

EnvGoals(G) == IF Len(G.ep) = 0 THEN {1..G.n} ELSE {G.ep[k] : k \in 1..Len(G.ep)}
SysGoals(G) == IF Len(G.sp) = 0 THEN {1..G.n} ELSE {G.sp[k] : k \in 1..Len(G.sp)}

\* nu X: escape \/ (~ env goal /\ CPre(X))
RECURSIVE Trap(_, _, _, _)
Trap(G, escape, notgoal, X) ==
    LET X2 == TLCEval(escape \cup (notgoal \cap CPre(G, X)))
    IN IF X2 = X THEN X ELSE Trap(G, escape, notgoal, X2)

\* mu Y: \/_i nu X: (goal /\ CPre(Z)) \/ CPre(Y) \/ (~ env_i /\ CPre(X))
RECURSIVE Attr(_, _, _)
Attr(G, start, Y) ==
    LET esc == TLCEval(start \cup CPre(G, Y))
        Y2 == TLCEval(Y \cup UNION {Trap(G, esc, (1..G.n) \ eg, 1..G.n) : eg \in EnvGoals(G)})
    IN IF Y2 = Y THEN Y ELSE Attr(G, start, Y2)

RECURSIVE WinFrom(_, _)
WinFrom(G, Z) ==
    LET cz == CPre(G, Z)
        Z2 == TLCEval({s \in Z : \A sg \in SysGoals(G) : s \in Attr(G, sg \cap cz, {})})
    IN IF Z2 = Z THEN Z ELSE WinFrom(G, Z2)

\* the same, computing each attractor once per round
RECURSIVE WinFix(_, _)
WinFix(G, Z) ==
    LET cz == CPre(G, Z)
        as == TLCEval({Attr(G, sg \cap cz, {}) : sg \in SysGoals(G)})
        Z2 == TLCEval({s \in Z : \A a \in as : s \in a})
    IN IF Z2 = Z THEN Z ELSE WinFix(G, Z2)

Win(G) == TLCEval(WinFix(G, 1..G.n))

InitOk(G, W, s) ==
    IF G.plus_one THEN s \in G.si /\ (s \in W \/ s \notin G.ei)
    ELSE (s \in G.si /\ s \in W) \/ s \notin G.ei

Realizable(G, W) ==
    CASE G.qinit = "AA" -> \A s \in 1..G.n : s \in G.ei => s \in W
      [] G.qinit = "EE" -> \E s \in 1..G.n : s \in G.si /\ s \in W
      [] G.qinit = "AE" -> \A x \in Xs(G) : \E y \in Ys(G) : InitOk(G, W, St(G, x, y))
      [] G.qinit = "EA" -> \E y \in Ys(G) : \A x \in Xs(G) : InitOk(G, W, St(G, x, y))

----
(* Controllers: a machine is [n, init, edges] with nodes 1..n, `init` a sequence of nodes, and   *)
(* edges [a, b, val]: on the step labelled by valuation `val`, move from node a to node b.        *)
(* Configurations are pairs <<node, arena state>>.                                               *)

OutEdges(m, q) == {k \in 1..Len(m.edges) : m.edges[k].a = q}

DomainOk(g, m) == \A k \in 1..Len(m.edges) : InDomain(g.vars, m.edges[k].val)

\* arena state of each edge
EdgeSt(g, m) == TLCEval([k \in 1..Len(m.edges) |->
    1 + Encode(g.vars, m.edges[k].val, Len(g.vars))])

InitEdges(m) == UNION {OutEdges(m, q) : q \in {m.init[k] : k \in 1..Len(m.init)}}

RECURSIVE Reach(_, _, _, _)
Reach(succ(_), R, F, dummy) ==
    IF F = {} THEN R
    ELSE LET new == TLCEval((UNION {succ(c) : c \in F}) \ R)
         IN Reach(succ, TLCEval(R \cup new), new, dummy)

\* greatest set of configurations inside `base` from which a cycle that visits every set in
\* `fair` again and again is possible within the set (Emerson-Lei)
RECURSIVE BackReach(_, _, _)
BackReach(pred(_), T, Z) ==   \* states of Z with a path of length >= 0 in Z to T
    LET T2 == TLCEval(T \cup (Z \cap UNION {pred(c) : c \in T}))
    IN IF T2 = T THEN T ELSE BackReach(pred, T2, Z)

RECURSIVE FairSet(_, _, _)
FairSet(pred(_), fair, Z) ==
    LET Z2 == TLCEval({c \in Z : \A f \in fair :
                c \in BackReach(pred, TLCEval(Z \cap UNION {pred(d) : d \in f \cap Z}), Z)})
    IN IF Z2 = Z THEN Z ELSE FairSet(pred, fair, Z2)

ControllerVerdict(g, G, m, rmdead) ==
    IF ~ DomainOk(g, m) THEN {"domain"} ELSE
    LET es == EdgeSt(g, m)
        out == TLCEval([q \in 1..m.n |-> TLCEval(OutEdges(m, q))])
        ie == InitEdges(m)
        \* initial edges on which the environment keeps its initial assumption
        vie == {k \in ie : G.qinit = "EE" \/ es[k] \in G.ei}
        start == {<<m.edges[k].b, es[k]>> : k \in vie}
        steps(c) == {k \in out[c[1]] : es[k] \in G.ea[c[2]]}
        succ(c) == {<<m.edges[k].b, es[k]>> : k \in steps(c)}
        R == TLCEval(Reach(succ, start, start, 0))
        suc == TLCEval([c \in R |-> TLCEval(succ(c))])
        pre == TLCEval([c \in R |-> TLCEval({d \in R : c \in suc[d]})])
        pred(c) == pre[c]
        envblocked == \E s \in 1..G.n : G.ea[s] = {}
        mayprune == rmdead /\ envblocked
        initx == {XOf(G, es[k]) : k \in ie}
        eix == {XOf(G, s) : s \in G.ei}
        initbad ==
            CASE G.qinit = "AA" -> {es[k] : k \in ie} \cap G.ei # G.ei
              [] G.qinit = "EE" -> ie = {}
              [] G.qinit = "AE" -> ~ (eix \subseteq initx)
              [] G.qinit = "EA" -> ~ (\E y \in Ys(G) : \A x \in eix :
                                    \E k \in ie : es[k] = St(G, x, y))
        initdet == G.qinit \in {"AE", "EA"} =>
            \A j, k \in vie : (j # k /\ m.edges[j].a = m.edges[k].a)
                => XOf(G, es[j]) # XOf(G, es[k])
        detbad == \E c \in R : \E j, k \in steps(c) : j # k /\ XOf(G, es[j]) = XOf(G, es[k])
        stuck == \E c \in R :
            {XOf(G, s) : s \in G.ea[c[2]]} \ {XOf(G, es[k]) : k \in out[c[1]]} # {}
        fairsets == {{c \in R : c[2] \in eg} : eg \in EnvGoals(G)}
        livebad == \E sg \in SysGoals(G) :
            FairSet(pred, fairsets, {c \in R : c[2] \notin sg}) # {}
    IN (IF initbad /\ ~ mayprune THEN {"init-inputs"} ELSE {})
       \cup (IF ~ initdet THEN {"init-nondeterministic"} ELSE {})
       \cup (IF \E k \in vie : es[k] \notin G.si THEN {"sys_init"} ELSE {})
       \cup (IF detbad THEN {"nondeterministic"} ELSE {})
       \cup (IF stuck /\ ~ mayprune THEN {"stuck"} ELSE {})
       \cup (IF \E c \in R : \E k \in steps(c) : es[k] \notin G.sa[c[2]] THEN {"sys_safety"} ELSE {})
       \cup (IF livebad THEN {"sys_progress"} ELSE {})
       \cup (IF rmdead /\ \E q \in 1..m.n : out[q] = {} THEN {"deadend"} ELSE {})
====
