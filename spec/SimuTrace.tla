---- MODULE SimuTrace ----
(* Abstractions returned by the code. *)
EXTENDS Simu, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Range(s) == {s[k] : k \in DOMAIN s}
T(x) == [n |-> x.n, ap |-> [s \in 1..x.n |-> Range(x.ap[s])], init |-> Range(x.init), edges |-> Range(x.edges)]
Judge(t, o, want) ==
    IF ~ o.ok THEN {"raised"}
    ELSE LET cell == [k \in DOMAIN o.cells |-> Range(o.cells[k])]
             F == Range(cell)
             K == DOMAIN o.cells
         IN IF ~ (UNION F \subseteq St(t)) THEN {"cells"} ELSE
            (IF F = want /\ Cardinality(F) = Len(o.cells) THEN {} ELSE {"cells"})
            \cup (IF {e \in K \X K : <<cell[e[1]], cell[e[2]]>> \in Edges(t, F)} = Range(o.edges) /\ Cardinality(Range(o.edges)) = Len(o.edges) THEN {} ELSE {"edges"})
            \cup (IF \A k \in K : \A s \in cell[k] : t.ap[s] = Range(o.ap[k]) THEN {} ELSE {"propositions"})
            \cup (IF Range(o.init) = {k \in K : cell[k] \cap t.init # {}} THEN {} ELSE {"initial"})
            \cup (IF \A s \in St(t) : Range(o.map[s]) = {k \in K : s \in cell[k]} THEN {} ELSE {"maps"})
Verdict(x) ==
    LET t == T(x)
    IN {"bi-" \o j : j \in Judge(t, x.bi, Classes(t, Bisim(t)))}
       \cup (IF x.usedual THEN {"dual-" \o j : j \in Judge(t, x.dual, DualCells(t))} ELSE {})
       \cup (IF x.kept THEN {} ELSE {"argument-changed"})
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
