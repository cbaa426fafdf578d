---- MODULE ProductMC ----
(* All pairs of small systems and automata. *)
EXTENDS Product, Json
CONSTANTS Run, Some
VARIABLE c
A == {{}, {"p"}}
Edges == SUBSET {<<1, 1, "-">>, <<1, 2, "-">>, <<2, 1, "-">>, <<2, 2, "-">>}
TSs == {[n |-> 2, init |-> i, ap |-> a, edges |-> e] : i \in {{1}, {1, 2}}, a \in [1..2 -> A], e \in Edges}
Delta == {<<q, L, r>> : q, r \in {1, 2}, L \in A}
Init == c \in {[kind |-> "ts", t |-> t] : t \in TSs}
Next == /\ c.kind = "ts"
        /\ \E d \in SUBSET Delta, i \in {{1}, {1, 2}}, f \in {{1}, {2}} :
              /\ Some => Cardinality(d) \in {2, 3}
              /\ Some => i = {1} /\ (\E e \in d : e[3] \in f)
              /\ c' = [kind |-> "pair", t |-> c.t, b |-> [m |-> 2, init |-> i, acc |-> f, delta |-> d]]
\* the product accepts exactly the runs that the automaton accepts
Right == c.kind = "ts" \/
    LET P == TLCEval(ProductOf(c.t, c.b))
    IN \A n \in 1..Run : \A r \in [1..n -> 1..2], l \in 1..n :
            IsRun(c.t, r, l) => Accepts(c.t, c.b, r, l) = ProductRun(P, r, l)
Emit == c.kind = "ts" \/ PrintT("@@" \o ToJson(c))
====
