---- MODULE FuncTableTrace ----
EXTENDS FuncTable, TLC, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE Fold(_, _, _, _)
Fold(r, k, t, acc) ==
    IF k > Len(r.ops) THEN acc
    ELSE LET o == r.ops[k]
             e == Expected(t, o, r.tsl, r.sidx)
             ok == e = r.obs[k]
         IN Fold(r, k + 1, Apply(t, o),
                 IF ok THEN acc ELSE acc \cup {o.op})
Verdict(r) == IF Len(r.ops) # Len(r.obs) THEN {"length"} ELSE Fold(r, 1, EmptyTable, {})
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
