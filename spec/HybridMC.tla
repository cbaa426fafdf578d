------------------------------ MODULE HybridMC ------------------------------
(* All histories of constructors of models that share parts.               *)
EXTENDS Hybrid, Json
CONSTANTS Depth, MaxSubs
VARIABLES objs, hist, last
Times == {<<"none", 0>>, <<"sampled", 1>>, <<"sampled", 2>>, <<"discrete", 0>>, <<"discrete", 1>>, <<"other", 0>>}
OfKind(k) == {j \in 1..Len(objs) : objs[j].kind = k}
Seqs(S) == {<<>>} \union {<<a>> : a \in S} \union
    (IF MaxSubs < 2 THEN {} ELSE {<<a, b>> : a \in S, b \in S} \ {<<a, a>> : a \in S})
Op(kind, subs, t, ow) == [kind |-> kind, subs |-> subs, sem |-> t[1], step |-> t[2], overwrite |-> ow]
Ops == {Op("lti", <<>>, t, TRUE) : t \in Times}
    \union {Op("pwa", s, t, ow) : s \in Seqs(OfKind("lti")) \ {<<>>}, t \in Times, ow \in BOOLEAN}
    \union {Op("switched", s, t, ow) : s \in Seqs(OfKind("pwa")) \ {<<>>}, t \in Times, ow \in BOOLEAN}
Init == objs = <<>> /\ hist = <<>> /\ last = FALSE
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
            /\ objs' = Create(objs, op)
            /\ last' = Accepts(objs, op)
            /\ hist' = Append(hist, op)
\* every model has valid time data
Valid == \A k \in 1..Len(objs) : TimeOk(objs[k].sem, objs[k].step)
\* the parts of a model that was just made agree with it
Agree == (hist # <<>> /\ last) =>
    LET n == Len(objs) IN
    /\ \A j \in Elems(objs[n].subs) : Time(objs[j]) = Time(objs[n])
    /\ hist[Len(hist)].overwrite => \A j \in Parts(objs, n) : Time(objs[j]) = Time(objs[n])
\* a rejected constructor changes nothing; others keep all models
Grows == [][Len(objs') = Len(objs) + (IF last' THEN 1 ELSE 0) /\ (~ last' => objs' = objs)]_<<objs, hist, last>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
