---------------------------- MODULE LGraphTrace ----------------------------
(* Observations of the code against LGraph.                                   *)
(* A record: [cfg, hist |-> steps, branches |-> steps from the state after hist] *)
(* step: [op, ok, V, L, E, I, A, qs |-> seq of [q.., r |-> results]]            *)
EXTENDS LGraph, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad

Observed(c, st, x) ==
    (IF Range(x.V) # st.V \/ Len(x.V) # Cardinality(st.V) THEN {"states"} ELSE {})
    \cup (IF Range(x.V) = st.V /\ {<<x.V[n], x.L[n]>> : n \in 1..Len(x.V)} # {<<s, st.L[s]>> : s \in st.V}
          THEN {"state-labels"} ELSE {})
    \cup (IF Range(x.E) # st.E THEN {"transitions"} ELSE {})
    \cup (IF Range(x.E) = st.E /\ Len(x.E) # Cardinality(st.E) THEN {"duplicate-transition"} ELSE {})
    \cup (IF Range(x.I) # st.I THEN {"initial"} ELSE {})
    \cup (IF Range(x.A) # st.A THEN {"accepting"} ELSE {})
    \cup {"query-" \o x.qs[n].q : n \in {m \in 1..Len(x.qs) :
            Range(x.qs[m].r) # Query(c, st, x.qs[m]) \/ Len(x.qs[m].r) # Cardinality(Query(c, st, x.qs[m]))}}
(* emptying a graph by dead-end removal raises an error on purpose: the graph is not judged then *)
Emptied(o, r) == o.op = "deadends" /\ ~r.ok
Judge(c, st, x) ==
    LET r == TLCEval(Step(c, st, x.op))
    IN [st |-> r.st, stop |-> Emptied(x.op, r),
        bad |-> {x.op.op \o ":" \o b : b \in
            IF r.ok # x.ok THEN {IF r.ok THEN "wrongly-rejected" ELSE "wrongly-accepted"}
            ELSE IF Emptied(x.op, r) THEN {} ELSE Observed(c, r.st, x)}]
RECURSIVE Run(_, _, _, _)
Run(c, st, xs, n) ==
    IF n > Len(xs) THEN [st |-> st, bad |-> {}]
    ELSE LET j == TLCEval(Judge(c, st, xs[n]))
         IN IF j.bad # {} \/ j.stop THEN [st |-> j.st, bad |-> j.bad] ELSE Run(c, j.st, xs, n + 1)
Verdict(x) ==
    LET h == TLCEval(Run(x.cfg, Start(x.cfg), x.hist, 1))
    IN IF h.bad # {} THEN h.bad
       ELSE UNION {Judge(x.cfg, h.st, x.branches[n]).bad : n \in 1..Len(x.branches)}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
