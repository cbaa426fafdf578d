---- MODULE LTLSem ----
(* Linear temporal logic over ultimately periodic words ("lassos").                            *)
(* A lasso is a sequence w of states and a position l: after the last state, w[l] follows.     *)
(* Formulas are those of Formula.tla and the operators always, eventually, until, weak, release. *)
EXTENDS Formula, TLC

RECURSIVE TermAt(_, _, _), Holds(_, _, _), Iterate(_, _, _, _, _, _)

After(i, w, l) == IF i < Len(w) THEN i + 1 ELSE l

\* value of a term in each position
TermAt(f, w, l) ==
    LET n == Len(w) IN
    CASE f.op = "var"  -> [i \in 1..n |-> w[i][f.v]]
      [] f.op = "lit"  -> [i \in 1..n |-> f.n]
      [] f.op = "next" -> LET a == TLCEval(TermAt(f.a[1], w, l)) IN [i \in 1..n |-> a[After(i, w, l)]]
      [] f.op \in {"add", "sub", "mul"} ->
            LET a == TLCEval(TermAt(f.a[1], w, l))
                b == TLCEval(TermAt(f.a[2], w, l))
            IN [i \in 1..n |-> CASE f.op = "add" -> a[i] + b[i]
                                 [] f.op = "sub" -> a[i] - b[i]
                                 [] f.op = "mul" -> a[i] * b[i]]

\* k-fold application of u = b \/ (a /\ next u) to the given start
Iterate(a, b, u, k, w, l) ==
    IF k = 0 THEN u
    ELSE Iterate(a, b, TLCEval([i \in 1..Len(w) |-> b[i] \/ (a[i] /\ u[After(i, w, l)])]), k - 1, w, l)

Until(a, b, w, l) == Iterate(a, b, [i \in 1..Len(w) |-> FALSE], Len(w) + 1, w, l)
WeakUntil(a, b, w, l) == Iterate(a, b, [i \in 1..Len(w) |-> TRUE], Len(w) + 1, w, l)

\* truth value of a formula in each position
Holds(f, w, l) ==
    LET n == Len(w)
        P == 1..n
        All(b) == [i \in P |-> b]
        Neg(a) == [i \in P |-> ~ a[i]]
        L == TLCEval(Holds(f.a[1], w, l))
        R == TLCEval(Holds(f.a[2], w, l))
        x == TLCEval(TermAt(f.a[1], w, l))
        y == TLCEval(TermAt(f.a[2], w, l))
    IN CASE f.op = "var"   -> [i \in P |-> w[i][f.v] = 1]
         [] f.op = "true"  -> All(TRUE)
         [] f.op = "false" -> All(FALSE)
         [] f.op = "not"   -> Neg(L)
         [] f.op = "and"   -> [i \in P |-> L[i] /\ R[i]]
         [] f.op = "or"    -> [i \in P |-> L[i] \/ R[i]]
         [] f.op = "xor"   -> [i \in P |-> L[i] # R[i]]
         [] f.op = "imp"   -> [i \in P |-> L[i] => R[i]]
         [] f.op = "iff"   -> [i \in P |-> L[i] = R[i]]
         [] f.op = "next"  -> [i \in P |-> L[After(i, w, l)]]
         [] f.op = "eventually" -> Until(All(TRUE), L, w, l)
         [] f.op = "always" -> Neg(Until(All(TRUE), Neg(L), w, l))
         [] f.op = "until" -> Until(L, R, w, l)
         [] f.op = "weak"  -> WeakUntil(L, R, w, l)
         [] f.op = "release" -> Neg(Until(Neg(L), Neg(R), w, l))
         [] f.op = "eq"    -> [i \in P |-> x[i] = y[i]]
         [] f.op = "neq"   -> [i \in P |-> x[i] # y[i]]
         [] f.op = "lt"    -> [i \in P |-> x[i] < y[i]]
         [] f.op = "le"    -> [i \in P |-> x[i] <= y[i]]
         [] f.op = "gt"    -> [i \in P |-> x[i] > y[i]]
         [] f.op = "ge"    -> [i \in P |-> x[i] >= y[i]]

Sat(f, w, l) == Holds(f, w, l)[1]

RECURSIVE States(_, _)
\* all states over variables with the given bounds
States(vars, k) ==
    IF k = 0 THEN {<< >>}
    ELSE {Append(s, v) : s \in States(vars, k - 1), v \in vars[k].lo..vars[k].hi}
AllStates(vars) == States(vars, Len(vars))

Words(V, n) == [1..n -> V]
\* every ultimately periodic word of at most n states
Equivalent(f, g, V, n) == \A w \in Words(V, n), l \in 1..n : Sat(f, w, l) = Sat(g, w, l)
====
