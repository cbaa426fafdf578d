----------------------------- MODULE HybridTrace -----------------------------
(* Models that the code constructed, checked against Hybrid.                *)
EXTENDS Hybrid, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
If(c, name) == IF c THEN {} ELSE {name}

\* histories of constructors: r.ops, r.obs[k] = [ok, times of all models]
RECURSIVE Follow(_, _, _)
Follow(r, k, objs) ==
    IF k > Len(r.obs) \/ Obscure(objs, r.ops[k]) THEN {} ELSE
    LET new == Create(objs, r.ops[k])
        got == r.obs[k]
        b == If(got.ok = Accepts(objs, r.ops[k]), IF got.ok THEN "inconsistent time accepted" ELSE "time rejected")
    IN IF b # {} THEN b ELSE
       LET c == If([j \in 1..Len(new) |-> Time(new[j])] = [j \in 1..Len(got.times) |-> <<got.times[j][1], got.times[j][2]>>], "time data")
       IN IF c # {} THEN c ELSE Follow(r, k + 1, new)

Accepted(r, ok, stored(_, _)) ==
    IF ok THEN (IF ~ r.got.ok THEN {"rejected"} ELSE If(stored(r, r.got), "stored"))
          ELSE If(~ r.got.ok, "accepted")
PwaStored(r, got) == got.same
Converted(r, ok) == IF ~ ok THEN If(~ r.got.ok, "accepted")
    ELSE IF ~ r.got.ok THEN {"rejected"} ELSE If(LtiStored(r, r.got) /\ r.got.wrapped, "stored")
Verdict(r) ==
    CASE r.what = "time" -> Follow(r, 1, <<>>)
      [] r.what = "lti" -> Accepted(r, LtiOk(r), LtiStored)
      [] r.what = "pwa" -> Accepted(r, PwaOk(r), PwaStored)
      [] r.what = "switched" -> Accepted(r, SwitchedOk(r), SwitchedStored)
      [] r.what = "converted" -> Converted(r, LtiOk(r) /\ r.domain.given)
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
