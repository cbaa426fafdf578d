---- MODULE Simu ----
(* Bisimulation quotients and dual-simulation abstractions of labeled transition systems. *)
(* t = [n, ap, init, edges]                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
St(t) == 1..t.n
Post(t, s) == {e[2] : e \in {x \in t.edges : x[1] = s}}
Pre(t, Z) == {e[1] : e \in {x \in t.edges : x[2] \in Z}}
Matches(t, R, x, y) == \A u \in Post(t, x) : \E v \in Post(t, y) : <<u, v>> \in R
IsBisim(t, R) == \A p \in R : /\ t.ap[p[1]] = t.ap[p[2]]
                              /\ Matches(t, R, p[1], p[2])
                              /\ \A v \in Post(t, p[2]) : \E u \in Post(t, p[1]) : <<u, v>> \in R
SameAP(t) == {p \in St(t) \X St(t) : t.ap[p[1]] = t.ap[p[2]]}
RECURSIVE Refine(_, _)
Refine(t, R) == LET R1 == {p \in R : Matches(t, R, p[1], p[2]) /\ Matches(t, R, p[2], p[1])}
                IN IF R1 = R THEN R ELSE Refine(t, TLCEval(R1))
Bisim(t) == Refine(t, SameAP(t))
Classes(t, R) == {{y \in St(t) : <<x, y>> \in R} : x \in St(t)}
\* cells of the dual-simulation abstraction: closure of the cells of equal propositions under backward refinement
RECURSIVE CloseDual(_, _)
CloseDual(t, F) == LET F1 == F \cup ({A \cap Pre(t, B) : A, B \in F} \ {{}})
                   IN IF F1 = F THEN F ELSE CloseDual(t, TLCEval(F1))
DualCells(t) == CloseDual(t, Classes(t, SameAP(t)))
\* all members of A have a successor in B
Edges(t, F) == {<<A, B>> \in F \X F : A \subseteq Pre(t, B)}
====
