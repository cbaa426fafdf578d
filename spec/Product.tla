---- MODULE Product ----
(* Synchronous product of a finite transition system and a Buchi automaton over propositions.     *)
(* t = [n, init, ap, edges]: states 1..n, initial states, propositions per state,                  *)
(*     edges <<from, to, label>>; b = [m, init, acc, delta]: delta has <<from, letter, to>>.        *)
(* The letter {"*"} is read for any propositions.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Any1 == {"*"}
Enabled(t, b, q, s) == {d[3] : d \in {e \in b.delta : e[1] = q /\ (e[2] = t.ap[s] \/ e[2] = Any1)}}
InitP(t, b) == {<<s, r>> : s \in t.init, r \in 1..b.m} \cap UNION {UNION {{<<s, r>> : r \in Enabled(t, b, q, s)} : q \in b.init} : s \in t.init}
\* labeled edges from a pair
EdgesP(t, b, p) == UNION {{<<p, <<e[2], r>>, e[3]>> : r \in Enabled(t, b, p[2], e[2])} : e \in {x \in t.edges : x[1] = p[1]}}
SuccP(t, b, p) == {e[2] : e \in EdgesP(t, b, p)}
RECURSIVE Closure(_, _, _, _)
Closure(t, b, front, seen) ==
    IF front = {} THEN seen
    ELSE LET nxt == TLCEval(UNION {SuccP(t, b, p) : p \in front} \ seen)
         IN Closure(t, b, nxt, seen \cup nxt)
ReachP(t, b) == LET s == InitP(t, b) IN Closure(t, b, s, s)
ProductOf(t, b) ==
    LET S == TLCEval(ReachP(t, b))
    IN [states |-> S, init |-> InitP(t, b), acc |-> {p \in S : p[2] \in b.acc},
        edges |-> UNION {EdgesP(t, b, p) : p \in S}]

\* ---- what products are for: which runs are accepted
\* r is a lasso of states of t: sequence and loop position
AfterR(k, r, l) == IF k < Len(r) THEN k + 1 ELSE l
IsRun(t, r, l) == /\ r[1] \in t.init
                  /\ \A k \in 1..Len(r) : \E e \in t.edges : e[1] = r[k] /\ e[2] = r[AfterR(k, r, l)]
\* nodes from which an infinite path visits Good infinitely often
Fair(Nodes, Suc, Good) ==
    LET Pre(Z) == {n \in Nodes : Suc[n] \cap Z # {}}
        RECURSIVE Back(_, _)
        Back(Y, T) == LET Y1 == T \cup Pre(Y) IN IF Y1 = Y THEN Y ELSE Back(Y1, T)
        RECURSIVE Shrink(_)
        Shrink(Z) == LET Z1 == Back({}, Good \cap Pre(Z)) \cap Z IN IF Z1 = Z THEN Z ELSE Shrink(TLCEval(Z1))
    IN Shrink(Nodes)
\* the automaton accepts the propositions along the run: <<k, q>> is state q before reading position k
Accepts(t, b, r, l) ==
    LET Nodes == (1..Len(r)) \X (1..b.m) \X BOOLEAN
        \* the flag says whether the state just entered is accepting
        Suc == TLCEval([n \in Nodes |-> {<<AfterR(n[1], r, l), q, q \in b.acc>> : q \in Enabled(t, b, n[2], r[n[1]])}])
        W == Fair(Nodes, Suc, {n \in Nodes : n[3]})
    IN \E q \in b.init : <<1, q, FALSE>> \in W
\* the product has a path over the run that visits accepting pairs infinitely often
ProductRun(P, r, l) ==
    LET Nodes == {<<k, p>> : k \in 1..Len(r), p \in P.states}
        On == {n \in Nodes : n[2][1] = r[n[1]]}
        Suc == TLCEval([n \in On |-> {x \in On : x[1] = AfterR(n[1], r, l) /\ \E e \in P.edges : e[1] = n[2] /\ e[2] = x[2]}])
        W == Fair(On, Suc, {n \in On : n[2] \in P.acc})
    IN \E p \in P.init : <<1, p>> \in W
====
