---- MODULE ComposeTrace ----
(* Compositions and induced chains built by the code. Probabilities of the code are given with the  *)
(* denominator unit^k.                                                                              *)
EXTENDS Compose, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Edge(e) == [u |-> e.u, v |-> e.v, cost |-> e.cost, prob |-> IF e.prob = << >> THEN << >> ELSE Norm(e.prob), act |-> e.act]
M(m) == [kind |-> m.kind, n |-> m.n, init |-> Range(m.init), props |-> Range(m.props), ap |-> [s \in 1..m.n |-> Range(m.ap[s])],
         actions |-> Range(m.actions), edges |-> {Edge(e) : e \in Range(m.edges)}]
Once(s) == Cardinality(Range(s)) = Len(s)
Judge(o, C) ==
    IF ~ o.ok THEN {"raised"}
    ELSE LET got == {Edge(e) : e \in Range(o.edges)}
         IN (IF o.kind = C.kind THEN {} ELSE {"type"})
            \cup (IF Range(o.states) = C.states /\ Once(o.states) THEN {} ELSE {"states"})
            \cup (IF Range(o.init) = C.init THEN {} ELSE {"initial"})
            \cup (IF Range(o.props) = C.props THEN {} ELSE {"propositions"})
            \cup (IF Len(o.ap) = Len(o.states) /\ \A k \in DOMAIN o.ap : o.states[k] \in C.states => Range(o.ap[k]) = C.ap[o.states[k]] THEN {} ELSE {"labels"})
            \cup (IF C.kind # "mdp" \/ Range(o.actions) = C.actions THEN {} ELSE {"actions"})
            \cup (IF got = C.edges /\ Cardinality(got) = Len(o.edges) THEN {} ELSE {"transitions"})
Pol(x, S) == [s \in S |-> x.policy[CHOOSE k \in DOMAIN x.at : x.at[k] = s]]
Verdict(x) ==
    LET ms == [k \in DOMAIN x.ms |-> M(x.ms[k])]
        C == TLCEval(Composition(ms, x.ops))
    IN Judge(x.got, C)
       \cup (IF C.kind \in {"mc", "mdp"} /\ x.ops.prob = "mult" /\ x.wellformed /\ ~ Stochastic(C) THEN {"model-stochastic"} ELSE {})
       \cup (IF x.at = << >> THEN {} ELSE {"policy-" \o j : j \in Judge(x.chain, Induced(C, Pol(x, C.states)))})
       \cup (IF x.kept THEN {} ELSE {"operands-changed"})
       \cup (IF x.apart THEN {} ELSE {"shared"})
       \cup (IF x.opskept THEN {} ELSE {"operations-changed"})
       \cup (IF x.rejected THEN {} ELSE {"accepted-bad-label"})
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
