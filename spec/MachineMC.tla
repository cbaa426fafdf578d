---- MODULE MachineMC ----
(* All machines with two states, one input and one output of two values.                            *)
EXTENDS Machine, Json
CONSTANT Deterministic
VARIABLE c
V == {"i0", "i1"}
W(x) == [p |-> x]
WO(x) == [y |-> x]
\* for each state and input, the set of reactions
React == {<<>>} \cup {<<v, o>> : v \in 1..2, o \in V}
Choice == IF Deterministic THEN {{}} \cup {{<<v, o>>} : v \in 1..2, o \in V}
          ELSE {s \in SUBSET {<<v, o>> : v \in 1..2, o \in V} : Cardinality(s) < 3}
Edges(f) == UNION {{[u |-> u, i |-> W(a), o |-> WO(r[2]), v |-> r[1]] : r \in f[u][a]} : u \in 1..2, a \in V}
Init == c \in [k : {0}, first : [V -> Choice]]
Next == /\ c.k = 0
        /\ \E g \in [V -> Choice], i \in SUBSET {1, 2} :
              i # {} /\ c' = [k |-> 1, m |-> [states |-> 1..2, init |-> i, ins |-> {"p"}, outs |-> {"y"}, edges |-> Edges(<<c.first, g>>)]]
\* ---- runs
Det(m) == \A e, f \in m.edges : e.u = f.u /\ e.i = f.i => e = f
Words == UNION {[1..n -> {W(a) : a \in V}] : n \in 0..3}
RunsArePaths == c.k = 0 \/ \A w \in Words, u \in 1..2 :
    LET r == Run(c.m, u, w)
    IN /\ r.ok => IsPath(c.m, u, r.vs, r.os) /\ Len(r.vs) = Len(w)
       \* a deterministic machine blocks only where no transition is enabled
       /\ (~ r.ok /\ Det(c.m)) => \E k \in 1..Len(w) : LET q == Run(c.m, u, SubSeq(w, 1, k - 1))
                                      IN q.ok /\ Enabled(c.m, IF k = 1 THEN u ELSE q.vs[k - 1], w[k], {"p"}) = {}
\* ---- conversions keep the behaviour
Moore == LET M == ToMoore(c.m, WO("i0")) IN M
Converted == c.k = 0 \/
    LET M == TLCEval(Moore)
        N == ToMealy(M)
    IN /\ SameBehaviour(MooreNext(M), M.init, M.states, MealyLts(c.m), c.m.init, c.m.states)
       /\ SameBehaviour(MealyLts(N), N.init, N.states, MooreNow(M), M.init, M.states)
Emit == c.k = 0 \/ PrintT("@@" \o ToJson(c.m))
====
