---- MODULE FragmentMC ----
(* The reductions and the splitting, checked on all short words; and formulas for the code. *)
EXTENDS Fragment, Json
CONSTANTS N, Wide
VARIABLE c
P == [op |-> "var", v |-> 1]
Q == [op |-> "var", v |-> 2]
V == {<<a, b>> : a, b \in {0, 1}}
Props == {P, Q, No(P), And(P, Q), Op2("or", P, No(Q)), Tr, [op |-> "false"], Op2("xor", P, Q)}
Kinds == {"stability", "response", "eventually", "until"}
G(f) == Op1("always", f)
F(f) == Op1("eventually", f)
Leaves == {P, No(Q), G(P), G(Imp(P, X(Q))), G(F(Q)), G(F(And(P, No(Q)))), G(And(P, Q)), G(No(X(P)))}
Odd == {X(P), F(P), G(G(P)), G(F(G(P))), F(G(P)), Op2("until", P, Q), G(Op2("weak", P, Q)), Op2("weak", P, Q), No(G(P)), G(F(X(P))),
        G(And(P, F(Q))), Imp(P, G(Q)), Op2("release", P, Q), G(F(F(P))), Op2("or", G(P), P), G(Op2("release", Q, P)), G(F(Op2("weak", P, Q))),
        Imp(Op2("weak", P, Q), Q), G(No(Op2("until", Q, P)))}
AnyF == Leaves \cup Odd \cup {Tr}
\* conjunctions that contain a given conjunct
Trees(a) == {a} \cup {And(a, b) : b \in AnyF}
    \cup (IF Wide THEN {And(And(a, b), d) : b, d \in AnyF} \cup {And(b, And(a, d)) : b, d \in Leaves}
          ELSE {And(And(a, b), d) : b \in Leaves, d \in {P, X(P), F(P), G(P), G(F(P))}})
    \cup {Imp(And(a, b), d) : b, d \in {P, G(P), G(F(Q))}}
\* each seed is expanded by a different worker
Init == \/ \E k \in Kinds, p \in Props : c = [kind |-> "seed", k |-> k, f |-> p]
        \/ \E f \in AnyF : c = [kind |-> "seed", k |-> "split", f |-> f]
Next == /\ c.kind = "seed"
        /\ IF c.k = "split" THEN \E f \in Trees(c.f) : c' = [kind |-> "split", f |-> f]
           ELSE \E q \in Props : c' = [kind |-> c.k, p |-> c.f, q |-> q]
\* the split parts mean what the formula means
SplitMeans(f) ==
    LET x == Split(f)
    IN \A w \in Words(V, 2), l \in 1..2 :
        Sat(f, w, l) = HasRun([init |-> x.init, safety |-> x.G, prog |-> x.GF], 0, w, l)
Inv == IF c.kind = "seed" THEN TRUE ELSE IF c.kind = "split" THEN InFragment(c.f) => SplitMeans(c.f)
       ELSE Same(Source(c.kind, c.p, c.q), Reduced(c.kind, c.p, c.q, 3), 1, V, N)
Emit == c.kind = "seed" \/ PrintT("@@" \o ToJson(c))
====
