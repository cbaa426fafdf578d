---- MODULE Machine ----
(* Mealy and Moore machines. Valuations are functions from port names to values ("" if absent).   *)
(* mealy = [states, init, ins, outs, edges]: edges [u, i, o, v].                                   *)
(* moore = the same with edges [u, i, v] and out (state -> valuation).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}
Sub(f, D) == [k \in D |-> f[k]]
Err == [ok |-> FALSE]
\* ---- reactions
Enabled(m, u, in, D) == {e \in m.edges : e.u = u /\ \A k \in D : e.i[k] = in[k]}
\* in: valuation of the ports in D; a lazy reaction may have a part of the ports
Reaction(m, u, in, D, lazy) ==
    LET E == Enabled(m, u, in, D)
    IN IF ~ D \subseteq m.ins \/ (~ lazy /\ D # m.ins) \/ Cardinality(E) # 1 THEN Err
       ELSE LET e == CHOOSE e \in E : TRUE IN [ok |-> TRUE, v |-> e.v, o |-> e.o]
\* run over a sequence of full valuations
RECURSIVE Run(_, _, _)
Run(m, u, ins) ==
    IF ins = << >> THEN [ok |-> TRUE, vs |-> << >>, os |-> << >>]
    ELSE LET r == Reaction(m, u, ins[1], m.ins, FALSE)
         IN IF ~ r.ok THEN Err
            ELSE LET t == Run(m, r.v, Tail(ins))
                 IN IF ~ t.ok THEN Err ELSE [ok |-> TRUE, vs |-> <<r.v>> \o t.vs, os |-> <<r.o>> \o t.os]
Deadend(m, u) == \A e \in m.edges : e.u # u
RECURSIVE ReachM(_, _, _)
ReachM(m, S, n) == IF n = 0 THEN S ELSE ReachM(m, S \cup {e.v : e \in {x \in m.edges : x.u \in S}}, n - 1)
\* a path through transitions that produces the given outputs
IsPath(m, u, vs, os) ==
    /\ Len(vs) = Len(os)
    /\ \A k \in DOMAIN vs : \E e \in m.edges : e.u = (IF k = 1 THEN u ELSE vs[k - 1]) /\ e.v = vs[k] /\ e.o = os[k]

\* ---- the input/output behaviour: greatest simulation between two machines
\* A, B: sets of [u, l, v], with l a label
SimStep(A, B, R) == {p \in R : \A e \in A : e.u = p[1] => \E f \in B : f.u = p[2] /\ f.l = e.l /\ <<e.v, f.v>> \in R}
Flip(R) == {<<p[2], p[1]>> : p \in R}
RECURSIVE Bisim(_, _, _)
Bisim(A, B, R) ==
    LET R1 == SimStep(A, B, R)
        R2 == Flip(SimStep(B, A, Flip(R1)))
    IN IF R2 = R THEN R ELSE Bisim(A, B, TLCEval(R2))
SameBehaviour(A, initA, SA, B, initB, SB) ==
    LET R == TLCEval(Bisim(A, B, SA \X SB))
    IN /\ \A a \in initA : \E b \in initB : <<a, b>> \in R
       /\ \A b \in initB : \E a \in initA : <<a, b>> \in R
MealyLts(m) == {[u |-> e.u, l |-> <<e.i, e.o>>, v |-> e.v] : e \in m.edges}
\* a Moore machine that reacts: the output at the present state
MooreNow(m) == {[u |-> e.u, l |-> <<e.i, m.out[e.u]>>, v |-> e.v] : e \in m.edges}
\* the output at the next state
MooreNext(m) == {[u |-> e.u, l |-> <<e.i, m.out[e.v]>>, v |-> e.v] : e \in m.edges}

\* ---- conversions
ToMealy(m) == [states |-> m.states, init |-> m.init, ins |-> m.ins, outs |-> m.outs,
               edges |-> {[u |-> e.u, i |-> e.i, o |-> m.out[e.u], v |-> e.v] : e \in m.edges}]
\* o0: the arbitrary first output
ToMoore(m, o0) ==
    LET S == {<<s, o0>> : s \in m.init} \cup {<<e.v, e.o>> : e \in m.edges}
    IN [states |-> S, init |-> {<<s, o0>> : s \in m.init}, ins |-> m.ins, outs |-> m.outs, out |-> [s \in S |-> s[2]],
        edges |-> UNION {{[u |-> s, i |-> e.i, v |-> <<e.v, e.o>>] : e \in {x \in m.edges : x.u = s[1]}} : s \in S}]
Strip(m, names) ==
    LET I == m.ins \ names
        O == m.outs \ names
    IN [states |-> m.states, init |-> m.init, ins |-> I, outs |-> O,
        edges |-> {[u |-> e.u, i |-> Sub(e.i, I), o |-> Sub(e.o, O), v |-> e.v] : e \in m.edges}]
\* outputs that are zero are erased, and read as zero
Erase(o, zero) == [k \in DOMAIN o |-> IF o[k] = zero THEN "" ELSE o[k]]
Mask(m, zero) == [m EXCEPT !.edges = {[e EXCEPT !.o = Erase(e.o, zero)] : e \in m.edges}]
\* d is a determinization of m at state s, where the outputs in D have the values of given
IsDeterminized(d, m, s, given, D) ==
    LET Fits(e) == \A k \in D : e.o[k] = given[k]
        At(E) == {e \in E : e.u = s}
    IN /\ d.states = m.states /\ d.init = m.init /\ d.ins = m.ins /\ d.outs = m.outs
       /\ d.edges \ At(d.edges) = m.edges \ At(m.edges)
       /\ \A e \in At(d.edges) : e \in m.edges /\ Fits(e)
       /\ \A e, f \in At(d.edges) : e.i = f.i => e = f
       /\ \A e \in At(m.edges) : Fits(e) => \E f \in At(d.edges) : f.i = e.i
====
