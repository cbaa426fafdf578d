------------------------------ MODULE DriveTrace ------------------------------
(* Inputs that the code computed, checked against Drive.                     *)
EXTENDS Drive, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
If(c, name) == IF c THEN {} ELSE {name}
Tol == 12
Mild(s) == \A k \in DOMAIN s.W: s.W[k][1] <= 0 /\ 0 <= s.W[k][2]
\* inputs computed once, for all disturbances
Open(r) ==
    LET st == r.steps[1] IN
    If(Robust(r.sys, st.x, st.us, r.P, r.ends, Tol), "plan")
Closed(r) ==
    UNION {LET st == r.steps[k] IN
        If(FirstStep(r.sys, st.x, st.us[1], r.P, r.ends, Len(st.us) = 1, Tol), "step")
        \cup If(~ Mild(r.sys) \/ Robust(Calmed(r.sys), st.x, st.us, r.P, r.ends, Tol), "nominal plan"): k \in DOMAIN r.steps}
Optimal(r) ==
    LET st == r.steps[1]
        s == IF r.closed /\ r.N > 1 THEN Calmed(r.sys) ELSE r.sys
        got == Costs(s, st.x, st.us, r.P, r.cost, r.ends, r.centers, Tol)
        best == UNION {Costs(s, st.x, p, r.P, r.cost, r.ends, r.centers, 0): p \in Plans(s, r.N)} IN
    got = {} \/ best = {} \/ Min(got) <= Min(best) + r.slack
Plan(r) ==
    If(~ r.changed, "arguments changed")
    \cup If(r.found \/ ~ r.must, "not found")
    \cup If(~ r.refuses, "no transition")
    \cup If(\A k \in DOMAIN r.steps: Len(r.steps[k].us) = r.N + 1 - k, "shape")
    \cup IF r.steps = <<>> \/ Len(r.steps[1].us) # r.N THEN {}
         ELSE (IF r.closed THEN Closed(r) ELSE Open(r)) \cup If(~ r.optimal \/ Optimal(r), "cost")
Verdict(r) ==
    IF r.fail # "" THEN {r.fail} ELSE
    CASE r.what = "plan" -> Plan(r)
      [] r.what = "sequence" -> If(r.got = Inside(r.sys, r.x, r.us, r.P0, r.P1), "is_seq_inside")
      [] r.what = "locate" -> If(r.got = Locate(r.x, [k \in DOMAIN r.regions |-> ToSet(r.regions[k])]), "find_discrete_state")
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
