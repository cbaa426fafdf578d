----------------------------- MODULE ExportTrace -----------------------------
(* Documents that the code wrote, checked against Export.                    *)
EXTENDS Export, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
Set(q) == {q[k] : k \in DOMAIN q}
Graph(x) == [x EXCEPT !.init = Set(@), !.acc = Set(@), !.props = Set(@), !.lab = [k \in DOMAIN @ |-> Set(@[k])]]
Prog(x) == [x EXCEPT !.vars = Set(@)]
If(c, name) == IF c THEN {} ELSE {name}
\* why a document is rejected
Reasons(g, d, shows) ==
    IF Describes(g, d, shows) THEN {}
    ELSE IF Describes(g, d, shows \ {"init"}) THEN {"initial states"}
    ELSE IF Describes(g, d, shows \ {"acc"}) THEN {"accepting states"}
    ELSE IF Matches(g, d, "names" \in shows) = {} THEN {"states"}
    ELSE {"labels or transitions"}
\* results for states of the model: r.values[s], and r.chosen[s] the action of the
\* document that the tool chose, r.policy[s] the action of the model
Mapped(r, g) ==
    If(r.got = r.values, "probabilities")
    \cup If(\A s \in DOMAIN r.policy : Distribution(g, s, r.policy[s]) = Set([k \in DOMAIN r.chosen[s] |-> <<r.chosen[s][k][1], r.chosen[s][k][2]>>]), "policy")
Verdict(r) ==
    LET g == Graph(r.g) IN
    IF r.fail # "" THEN {r.fail}
    ELSE CASE r.what = "promela" -> If(r.syntax, "syntax") \cup If(IsProgramOf(g, Prog(r.d)), "program")
           [] r.what = "results" -> Mapped(r, g)
           [] OTHER -> Reasons(g, Graph(r.d), Set(r.shows))
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
