---- MODULE GRObjTrace ----
(* Recorded histories of operations on specifications. *)
EXTENDS GRObj, LTLSem, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Obj(o) == [env |-> Range(o.env), sys |-> Range(o.sys), opts |-> o.opts, parts |-> o.parts]
Loose(d) == {<<p[1], p[2].kind, p[2].lo, p[2].hi, Range(p[2].vals)>> : p \in d}
\* all observed objects are as expected
SameObjs(got, want) ==
    /\ Len(got) = Len(want)
    /\ \A k \in 1..Len(want) : Obj(got[k]) = want[k]
    /\ \A k \in 1..Len(want) : Len(got[k].env) = Cardinality(want[k].env) /\ Len(got[k].sys) = Cardinality(want[k].sys)
Query(s, x, out, trees) ==
    CASE x.q = "check" -> IF out.ok <=> ~ Misplaced(s, trees) THEN {} ELSE {"check_syntax"}
      [] ~ out.ok -> {"raised-" \o x.q}
      [] x.q = "dump" -> (IF Loose(Range(out.env)) = Loose(s.env) /\ Loose(Range(out.sys)) = Loose(s.sys) /\ out.f = out.g THEN {} ELSE {"dump"})
      [] x.q = "repr" -> IF Obj(out.obj) = [s EXCEPT !.opts = out.obj.opts] THEN {} ELSE {"repr"}
      [] x.q \in {"ast", "pretty"} ->
            IF \A q \in Parts : out.parts[q] = [k \in 1..Len(s.parts[q]) |-> trees[s.parts[q][k]]] THEN {} ELSE {x.q}
      [] x.q = "ints" ->
            LET V == TLCEval(AllStates(out.vars))
            IN IF /\ \A q \in Parts : Len(out.pairs[q]) = Len(s.parts[q])
                  /\ \A q \in Parts : \A k \in 1..Len(out.pairs[q]) :
                        \A a, b \in V : EvalB(out.pairs[q][k][1], a, b) = EvalB(out.pairs[q][k][2], a, b)
               THEN {} ELSE {"ints"}
RECURSIVE Run(_, _, _)
Run(x, k, objs) ==
    IF k > Len(x.ops) THEN {}
    ELSE LET op == x.ops[k]
             out == x.outs[k]
             r == TLCEval(Apply(objs, op))
         IN (IF op.op = "query" THEN Query(objs[op.o], op, out, x.trees)
             ELSE IF r.ok # out.ok THEN {(IF r.ok THEN "refused-" ELSE "accepted-") \o op.op} ELSE {})
            \cup (IF SameObjs(out.objs, r.objs) THEN Run(x, k + 1, r.objs) ELSE {"state-" \o op.op})
Verdict(x) == Run(x, 1, << >>)
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
