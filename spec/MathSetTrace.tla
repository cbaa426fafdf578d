---------------------------- MODULE MathSetTrace ----------------------------
(* Observations of the code against MathSet.                                   *)
(* record: [cfg, hist |-> steps, branches |-> alternative steps after hist]    *)
(* step: [op, ok, s |-> [name |-> [iter, mem, len]], d |-> values, qs]         *)
EXTENDS MathSet, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
IsSetValued(q) == q.q \in {"product", "psets", "unique"}
AsSets(q, r) == IF q.q = "psets" THEN {Range(r[n]) : n \in 1..Len(r)} ELSE Range(r)
Observed(st, x) ==
    (UNION {LET o == x.s[n] v == st.s[n] IN
        (IF Range(o.iter) # v THEN {n \o "-elements"} ELSE {})
        \cup (IF Range(o.iter) = v /\ Len(o.iter) # Cardinality(v) THEN {n \o "-repeats"} ELSE {})
        \cup (IF Range(o.mem) # v THEN {n \o "-membership"} ELSE {})
        \cup (IF o.len # Cardinality(v) THEN {n \o "-size"} ELSE {}) : n \in SetNames})
    \cup (IF x.d # st.d THEN {"dictionary"} ELSE {})
    \cup {"query-" \o x.qs[n].q : n \in {m \in 1..Len(x.qs) :
            LET q == x.qs[m] IN
            IF ~q.ok THEN TRUE
            ELSE IF IsSetValued(q)
            THEN AsSets(q, q.r) # Query(st, q) \/ Len(q.r) # Cardinality(Query(st, q))
            ELSE q.r # Query(st, q)}}
Judge(st, x) ==
    LET r == TLCEval(Step(st, x.op))
    IN [st |-> r.st,
        bad |-> {x.op.op \o ":" \o b : b \in
            IF r.ok # x.ok THEN {IF r.ok THEN "wrongly-rejected" ELSE "wrongly-accepted"}
            ELSE r.v \cup Observed(r.st, x)}]
RECURSIVE Run(_, _, _)
Run(st, xs, n) ==
    IF n > Len(xs) THEN [st |-> st, bad |-> {}]
    ELSE LET j == TLCEval(Judge(st, xs[n]))
         IN IF j.bad # {} THEN j ELSE Run(j.st, xs, n + 1)
Verdict(x) ==
    LET h == TLCEval(Run(Start(x.cfg), x.hist, 1))
    IN IF h.bad # {} THEN h.bad
       ELSE UNION {Judge(h.st, x.branches[n]).bad : n \in 1..Len(x.branches)}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
