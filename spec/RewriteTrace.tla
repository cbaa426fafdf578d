---- MODULE RewriteTrace ----
(* Recorded passes over clauses. *)
EXTENDS Rewrite, LTLSem, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
\* the next states to consider
Succ(o, s, V) == IF Primed(o.f, FALSE) = {} /\ Primed(o.g, FALSE) = {} THEN {s} ELSE V
Obs(x, o, V) ==
    CASE o.kind = "raised" -> {"raised-" \o o.pass}
      [] o.kind = "same" -> IF \A s \in V : \A t \in Succ(o, s, V) : EvalB(o.f, s, t) = EvalB(o.g, s, t) THEN {} ELSE {"meaning-" \o o.pass}
      [] o.kind = "lasso" -> IF Equivalent(o.f, o.g, V, 3) THEN {} ELSE {"meaning-" \o o.pass}
      [] o.kind = "subst" -> IF LET R == TLCEval([s \in V |-> Redefine(s, o.dep)])
                                IN \A s \in V : \A t \in Succ(o, s, V) : EvalB(o.f, R[s], R[t]) = EvalB(o.g, s, t)
                             THEN {} ELSE {"meaning-" \o o.pass}
      [] o.kind = "values" -> IF EvalB(o.f, o.s, o.s) = EvalB(o.g, << >>, << >>) THEN {} ELSE {"meaning-" \o o.pass}
      [] o.kind = "init" -> IF \A k \in 1..Len(o.table) :
                                (AllB(o.env, o.table[k].s, o.table[k].s) => AllB(o.sys, o.table[k].s, o.table[k].s)) = o.table[k].v
                            THEN {} ELSE {"meaning-" \o o.pass}
      [] o.kind = "primed" -> IF {o.got[k] : k \in 1..Len(o.got)} = Primed(o.f, FALSE) THEN {} ELSE {"primed"}
      [] o.kind = "vars" -> IF {o.got[k] : k \in 1..Len(o.got)} = Names(o.t) /\ (o.raised <=> o.name \in Names(o.t)) THEN {} ELSE {"names"}
      [] o.kind = "ident" -> IF o.raised <=> Undeclared(o.t, o.doms) THEN {} ELSE {"undeclared"}
      [] o.kind = "flag" -> IF o.v THEN {} ELSE {o.pass}
Verdict(x) == LET V == TLCEval(AllStates(x.vars)) IN UNION {Obs(x, x.obs[k], V) : k \in 1..Len(x.obs)}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
