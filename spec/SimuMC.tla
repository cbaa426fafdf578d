---- MODULE SimuMC ----
(* The refinement algorithm, choosing pairs of cells in any order: cells, pairs to examine, edges found. *)
EXTENDS Simu, Json
CONSTANTS N, Type
VARIABLES t, cells, todo, trans
vars == <<t, cells, todo, trans>>
A == {{}, {"p"}}
Systems(n) == {[n |-> n, ap |-> a, init |-> {1}, edges |-> e] : a \in [1..n -> A], e \in SUBSET ((1..n) \X (1..n))}
Init == /\ t \in Systems(N)
        /\ cells = Classes(t, SameAP(t))
        /\ todo = cells \X cells
        /\ trans = {}
\* examine the edge from cell a to cell b
Examine(a, b) ==
    LET in == a \cap Pre(t, b)
        out == a \ in
    IN IF a \subseteq Pre(t, b)
       THEN /\ trans' = trans \cup {<<a, b>>}
            /\ todo' = todo \ {<<a, b>>}
            /\ UNCHANGED cells
       ELSE IF in = {} THEN todo' = todo \ {<<a, b>>} /\ UNCHANGED <<cells, trans>>
       ELSE IF Type = "bi"
       THEN \* split a
            /\ cells' = (cells \ {a}) \cup {in, out}
            /\ LET kept == {x \in trans : x[1] # a /\ x[2] # a}
                   copied == {<<c, x[2]>> : c \in {in, out}, x \in {y \in trans : y[1] = a /\ y[2] # a}}
               IN trans' = kept \cup copied \cup (IF a # b THEN {<<in, b>>} ELSE {})
            /\ todo' = ({x \in todo : x[1] # a /\ x[2] # a} \cup {<<c, d>> : c \in {in, out}, d \in cells'} \cup {<<d, c>> : c \in {in, out}, d \in cells'}) \ trans'
       ELSE \* add a subset of a
            /\ cells' = cells \cup {in}
            /\ trans' = trans \cup {<<in, x[2]>> : x \in {y \in trans : y[1] = a}} \cup {<<in, b>>}
            /\ todo' = ((todo \ {<<a, b>>}) \cup (IF in \in cells THEN {} ELSE {<<in, d>> : d \in cells'} \cup {<<d, in>> : d \in cells'})) \ trans'
Next == /\ \E x \in todo : Examine(x[1], x[2])
        /\ UNCHANGED t
Stop == FALSE /\ UNCHANGED vars
Sound == trans \subseteq Edges(t, cells)
Cover == UNION cells = St(t)
Done == todo = {} =>
    /\ cells = (IF Type = "bi" THEN Classes(t, Bisim(t)) ELSE DualCells(t))
    /\ trans = Edges(t, cells)
    \* for bisimulation, some member has an edge exactly when all have
    /\ Type = "bi" => \A a, b \in cells : (a \cap Pre(t, b) # {}) = (<<a, b>> \in trans)
\* the greatest bisimulation contains all others (checked in initial states)
Greatest == todo = cells \X cells /\ t.n < 3 =>
    /\ IsBisim(t, Bisim(t))
    /\ \A R \in SUBSET (St(t) \X St(t)) : IsBisim(t, R) => R \subseteq Bisim(t)
Emit == todo = cells \X cells /\ trans = {} => PrintT("@@" \o ToJson(t))
====
