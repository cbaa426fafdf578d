---- MODULE ComposeMC ----
(* All pairs of decision processes with two states, and of Markov chains.                          *)
EXTENDS Compose, Json
CONSTANT Small
VARIABLE c
\* distributions over two states: none, one state, or both
Dist == {{}, {<<1, <<1, 1>>>>}, {<<2, <<1, 1>>>>}, {<<1, <<1, 4>>>>, <<2, <<3, 4>>>>}}
E(u, a, d) == {[u |-> u, v |-> x[1], cost |-> << >>, prob |-> x[2], act |-> a] : x \in d}
Ap == [s \in 1..2 |-> IF s = 1 THEN {} ELSE {"p"}]
MDPs == {[kind |-> "mdp", n |-> 2, init |-> {1}, props |-> {"p"}, ap |-> Ap, actions |-> {"a", "b"},
          edges |-> UNION {E(1, <<"a">>, d[1]), E(1, <<"b">>, d[2]), E(2, <<"a">>, d[3]), E(2, <<"b">>, {})}] : d \in [1..3 -> Dist]}
MCs == {[kind |-> "mc", n |-> 2, init |-> {1, 2}, props |-> {"q"}, ap |-> [s \in 1..2 |-> {"q"}], actions |-> {},
         edges |-> E(1, << >>, d[1]) \cup E(2, << >>, d[2])] : d \in [1..2 -> Dist \ {{}}]}
Init == c \in {[kind |-> "one", m |-> m] : m \in MDPs}
Next == /\ c.kind = "one"
        /\ \/ \E m \in MDPs : (Small => m.edges = c.m.edges \/ Cardinality(m.edges) = 1) /\ c' = [kind |-> "pair", ms |-> <<c.m, m>>]
           \/ \E m \in MCs : c' = [kind |-> "pair", ms |-> <<c.m, m>>]
           \/ \E m \in MCs : c' = [kind |-> "pair", ms |-> <<m, c.m>>]
C == Composition(c.ms, DefaultOps)
\* Markov models stay stochastic
Markov == c.kind = "one" \/ Stochastic(C)
\* a policy on each model gives the composition of the chains they induce
Pols(m) == IF m.kind = "mdp" THEN [1..m.n -> m.actions] ELSE [1..m.n -> {"-"}]
One(m) == Composition(<<m>>, DefaultOps)
Apply(m, pol) ==
    IF m.kind # "mdp" THEN m
    ELSE [m EXCEPT !.kind = "mc", !.edges = {[e EXCEPT !.act = << >>] : e \in {x \in @ : x.act = <<pol[x.u]>>}}]
Both(ms, pols, s) ==
    LET D == SelectSeq(<<1, 2>>, LAMBDA k : ms[k].kind = "mdp") IN [k \in DOMAIN D |-> pols[D[k]][s[D[k]]]]
Commute == c.kind = "one" \/
    \A p1 \in Pols(c.ms[1]), p2 \in Pols(c.ms[2]) :
        LET I == Induced(C, [s \in C.states |-> Both(c.ms, <<p1, p2>>, s)])
            J == Composition(<<Apply(c.ms[1], p1), Apply(c.ms[2], p2)>>, DefaultOps)
        IN I.edges = J.edges /\ I.states = J.states /\ I.init = J.init /\ I.ap = J.ap
           /\ Stochastic(I)
Emit == c.kind = "one" \/ PrintT("@@" \o ToJson(c))
====
