---- MODULE Compose ----
(* Synchronous parallel composition of Kripke structures, weighted Kripke structures, Markov      *)
(* chains and Markov decision processes, and policies.                                            *)
(* model = [kind, n, init, ap, actions, edges]: states 1..n, edges [u, v, cost, prob, act].       *)
(*   cost: << >> if absent, else a sequence of numbers (one number: a scalar)                     *)
(*   prob: << >> if absent, else <<numerator, denominator>>                                       *)
(*   act:  << >> if absent, else <<name>>                                                         *)
(* States of a composition are tuples.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}
KindOf(ms) ==
    LET K == {ms[k].kind : k \in DOMAIN ms}
    IN IF "mdp" \in K THEN "mdp" ELSE IF "mc" \in K THEN "mc" ELSE IF "wks" \in K THEN "wks" ELSE "ks"
\* all functions that pick one element of each set
Picks(F) == {f \in [DOMAIN F -> UNION Range(F)] : \A k \in DOMAIN F : f[k] \in F[k]}
\* ---- operations on attribute values; vals has the values that are present, in order
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == IF q[1] = 0 THEN <<0, 1>> ELSE LET g == Gcd(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
Times(a, b) == Norm(<<a[1] * b[1], a[2] * b[2]>>)
Plus(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
\* a number added to a vector is added to each item
AddCost(a, b) ==
    IF Len(a) = Len(b) THEN [k \in DOMAIN a |-> a[k] + b[k]]
    ELSE IF Len(a) = 1 THEN [k \in DOMAIN b |-> b[k] + a[1]]
    ELSE [k \in DOMAIN a |-> a[k] + b[1]]
RECURSIVE Fold(_, _)
Fold(Op(_, _), vals) == IF Len(vals) = 1 THEN vals[1] ELSE Op(Fold(Op, SubSeq(vals, 1, Len(vals) - 1)), vals[Len(vals)])
MaxCost(a, b) == IF b[1] > a[1] THEN b ELSE a
MinProb(a, b) == IF Less(b, a) THEN b ELSE a
First(a, b) == a
CostOp(op, vals) ==
    IF vals = << >> THEN << >>
    ELSE CASE op = "sum" -> Fold(AddCost, vals) [] op = "max" -> Fold(MaxCost, vals) [] op = "first" -> vals[1]
           [] op = "count" -> <<Len(vals)>>
ProbOp(op, vals) ==
    IF vals = << >> THEN << >>
    ELSE CASE op = "mult" -> Fold(Times, vals) [] op = "min" -> Fold(MinProb, vals) [] op = "first" -> vals[1]
\* actions of a composition: the sequence of the actions of the decision processes among the models
ActOp(vals) == IF vals = << >> THEN << >> ELSE <<[k \in DOMAIN vals |-> vals[k][1]]>>
Present(vals) == SelectSeq(vals, LAMBDA v : v # << >>)
\* an operation gets one value for each model, in the order of the models; a value that is absent is `None`
RECURSIVE Ternary(_)
Ternary(s) == IF s = << >> THEN 0 ELSE (IF s[1] = << >> THEN 1 ELSE 2) + 3 * Ternary(Tail(s))
Where(vals) == IF Present(vals) = << >> THEN << >> ELSE <<Ternary(vals)>>
DefaultOps == [cost |-> "sum", prob |-> "mult"]

Joint(e, ops) ==
    LET N == DOMAIN e
        f(k, which) == CASE which = "cost" -> e[k].cost [] which = "prob" -> e[k].prob [] which = "act" -> e[k].act
        vals(which) == Present([k \in N |-> f(k, which)])
    IN [u |-> [k \in N |-> e[k].u], v |-> [k \in N |-> e[k].v],
        cost |-> IF ops.cost = "where" THEN Where([k \in N |-> e[k].cost]) ELSE CostOp(ops.cost, vals("cost")),
        prob |-> ProbOp(ops.prob, vals("prob")), act |-> ActOp(vals("act"))]
\* ms is a sequence of models
Composition(ms, ops) ==
    LET N == DOMAIN ms
        S == Picks([k \in N |-> 1..ms[k].n])
        D == SelectSeq(ms, LAMBDA m : m.kind = "mdp")
    IN [kind |-> KindOf(ms),
        states |-> S,
        init |-> {s \in S : \A k \in N : s[k] \in ms[k].init},
        props |-> UNION {ms[k].props : k \in N},
        ap |-> [s \in S |-> UNION {ms[k].ap[s[k]] : k \in N}],
        actions |-> IF D = << >> THEN {} ELSE Picks([k \in DOMAIN D |-> D[k].actions]),
        edges |-> {Joint(e, ops) : e \in Picks([k \in N |-> ms[k].edges])}]
\* ---- policies: pol gives the action of each state
Induced(C, pol) ==
    [kind |-> "mc", states |-> C.states, init |-> C.init, props |-> C.props, ap |-> C.ap, actions |-> {},
     edges |-> {[e EXCEPT !.act = << >>] : e \in {x \in C.edges : x.act = <<pol[x.u]>>}}]
\* ---- what these are for
RECURSIVE Total(_)
Total(E) == IF E = {} THEN <<0, 1>> ELSE LET e == CHOOSE e \in E : TRUE IN Plus(e.prob, Total(E \ {e}))
\* the probabilities of each enabled action of each state sum to 1
Stochastic(C) ==
    \A s \in C.states : \A a \in {e.act : e \in {x \in C.edges : x.u = s}} :
        Total({x \in C.edges : x.u = s /\ x.act = a}) = <<1, 1>>
====
