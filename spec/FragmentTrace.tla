---- MODULE FragmentTrace ----
(* What the code returned for formulas. *)
EXTENDS Fragment, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
L == 3
SameOn(fs, gs, V) == \A s, t \in V : AllB(fs, s, t) = AllB(gs, s, t)
Cover(fs, gs, V) == \A k \in DOMAIN fs : \E j \in DOMAIN gs : SameOn(<<fs[k]>>, <<gs[j]>>, V)
\* no conjunct lost, none misplaced
Parts(got, want, V) ==
    (IF SameOn(got.init, want.init, V) THEN {} ELSE {"init"})
    \cup (IF SameOn(got.G, want.G, V) THEN {} ELSE {"safety"})
    \cup (IF Cover(got.GF, want.GF \o <<Tr>>, V) /\ Cover(want.GF, got.GF \o <<Tr>>, V) THEN {} ELSE {"recurrence"})
JudgeSplit(x, V) ==
    IF InFragment(x.f) # x.ok THEN {IF x.ok THEN "accepted-outside-fragment" ELSE "rejected-in-fragment"}
    ELSE IF x.ok THEN IF ~ x.read THEN {"malformed"} ELSE {"split-" \o p : p \in Parts(x.parts, Split(x.f), V)} ELSE {}
JudgeSpec(x, V) ==
    LET fits == x.f.op = "imp" /\ InFragment(x.f.a[1]) /\ InFragment(x.f.a[2])
    IN IF fits # x.ok THEN {IF x.ok THEN "spec-accepted-outside-fragment" ELSE "spec-rejected-in-fragment"}
       ELSE IF ~ x.ok THEN {}
       ELSE IF ~ x.read THEN {"spec-malformed"}
       ELSE {"assumption-" \o p : p \in Parts(x.env, Split(x.f.a[1]), V)} \cup {"guarantee-" \o p : p \in Parts(x.sys, Split(x.f.a[2]), V)}
\* conversions, conjoined using different auxiliary variables
RECURSIVE SourceAll(_, _)
SourceAll(conv, k) == IF k = 0 THEN Tr ELSE And(SourceAll(conv, k - 1), Source(conv[k].kind, conv[k].p, conv[k].q))
JudgeConv(x, V) ==
    IF x.conflict THEN IF x.ok THEN {"auxiliary-name-conflict"} ELSE {}
    ELSE IF ~ x.ok THEN {"conversion-raised"}
    ELSE IF ~ x.read THEN {"conversion-malformed"}
    ELSE (IF x.declared THEN {} ELSE {"conversion-variables"})
         \cup (IF x.noenv THEN {} ELSE {"conversion-assumes"})
         \cup (IF Same(SourceAll(x.conv, Len(x.conv)), x.spec, x.m, V, x.n) THEN {} ELSE {"conversion-behaviours"})
Verdict(x) ==
    LET V == TLCEval(AllStates(x.vars))
    IN CASE x.kind = "split" -> JudgeSplit(x, V)
         [] x.kind = "spec" -> JudgeSpec(x, V)
         [] x.kind = "conv" -> JudgeConv(x, V)
         [] x.kind = "check" -> IF x.ok THEN {} ELSE {"check-raises"}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
