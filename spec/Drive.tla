-------------------------------- MODULE Drive --------------------------------
(* Inputs that move a plant of module Reach from one region to another.      *)
(* Plans are sequences of inputs. Numbers count fine units, `Fine` of them   *)
(* in a quarter; those of plants and regions count quarters.                 *)
EXTENDS Reach
Fine == 1000
Abs(x) == IF x < 0 THEN - x ELSE x
Total(seq) == FoldLeft(LAMBDA acc, x: acc + x, 0, seq)
Largest(seq) == FoldLeft(LAMBDA acc, x: IF x > acc THEN x ELSE acc, 0, seq)
Finely(s) == [s EXCEPT !.K = [k \in DOMAIN s.K |-> Fine * s.K[k]]]
Still(s) == [k \in 1..Len(s.E[1]) |-> 0]
\* states x(0), ..., x(N) without disturbances
RECURSIVE Path(_, _, _)
Path(s, x, us) == IF us = <<>> THEN <<x>> ELSE <<x>> \o Path(s, TLCEval(Post(Finely(s), x, Head(us), Still(s))), Tail(us))
\* boxes of states x(0), ..., x(N), for all disturbances
Tube(s, x, us) ==
    LET path == TLCEval(Path(s, x, us)) IN
    [k \in DOMAIN path |-> LET drift == TLCEval(Drift(s, k - 1)) IN
        [j \in DOMAIN x |-> <<path[k][j] + Fine * drift[j][1], path[k][j] + Fine * drift[j][2]>>]]
PointBox(x) == [k \in DOMAIN x |-> <<x[k], x[k]>>]
\* a box of states, and its corners, within tolerance
SubBox(b, c, tol) == \A k \in DOMAIN b: Fine * c[k][1] - tol <= b[k][1] /\ b[k][2] <= Fine * c[k][2] + tol
CornersOf(b) == Product([k \in DOMAIN b |-> {b[k][1], b[k][2]}])
InRegion(x, cells, tol) == \E c \in cells: \A k \in DOMAIN x: Abs(x[k] - Fine * c[k]) <= 2 * Fine + tol
\* every state in the box allows the input
Permitted(s, b, u, tol) ==
    \A r \in DOMAIN s.U: Dot(s.U[r][1], u) + Sum([k \in DOMAIN b |-> Scale(s.U[r][2][k], b[k])])[2] <= Fine * s.U[r][3] + tol
(* A plan for all disturbances: inputs are allowed, states stay in box P,    *)
(* and end in the set of boxes.                                              *)
Robust(s, x, us, P, ends, tol) ==
    LET tube == TLCEval(Tube(s, x, us))
        n == Len(us) IN
    /\ \A k \in 1..n: Permitted(s, tube[k], us[k], tol)
    /\ \A k \in 2..n: SubBox(tube[k], P, tol)
    /\ \E e \in DOMAIN ends: SubBox(tube[n + 1], ends[e], tol)
\* the same, without the effect of disturbances
Calmed(s) == [s EXCEPT !.W = <<>>]
(* One step of a plan that is computed again after each step: for each       *)
(* disturbance the state stays in the box, or arrives at the end.            *)
FirstStep(s, x, u, P, ends, last, tol) ==
    LET to == TLCEval(Tube(s, x, <<u>>)[2]) IN
    /\ Permitted(s, PointBox(x), u, tol)
    /\ IF last THEN \E e \in DOMAIN ends: SubBox(to, ends[e], tol) ELSE SubBox(to, P, tol)
(* cost |R x| + |Q u| + r x + weight |x(N) - center|, for x = x(1), ..., x(N) *)
Flat(seqs) == FoldLeft(LAMBDA acc, q: acc \o q, <<>>, seqs)
Rows(M, v) == [k \in DOMAIN M |-> Abs(Dot(M[k], v))]
Cost(s, x, us, c, center) ==
    LET path == TLCEval(Path(s, x, us))
        xs == TLCEval(Flat(Tail(path)))
        u == TLCEval(Flat(us))
        last == path[Len(path)]
        norm(seq) == IF c.max THEN Largest(seq) ELSE Total(seq) IN
    norm(Rows(c.R, xs)) + norm(Rows(c.Q, u)) + Dot(c.r, xs) + c.weight * norm([k \in DOMAIN last |-> Abs(last[k] - center[k])])
\* costs of a plan, for each box that it ends in
Costs(s, x, us, P, c, ends, centers, tol) ==
    {Cost(s, x, us, c, centers[e]): e \in {e \in DOMAIN ends: Robust(s, x, us, P, <<ends[e]>>, tol)}}
\* plans with inputs on the lattice
Plans(s, n) ==
    LET us == TLCEval({[k \in DOMAIN u |-> Fine * u[k]]: u \in Points(s.ubox, 2)}) IN
    FoldLeft(LAMBDA acc, k: {Append(p, u): p \in acc, u \in us}, {<<>>}, [k \in 1..n |-> k])
(* claim of `is_seq_inside`: x(1), ..., x(N - 1) in P0 and x(N) in P1        *)
Inside(s, x, us, P0, P1) ==
    LET path == TLCEval(Path(s, x, us))
        n == Len(us)
        in(y, bs) == \E k \in DOMAIN bs: SubBox(PointBox(y), bs[k], 0) IN
    (\A k \in 2..n: in(path[k], P0)) /\ in(path[n + 1], P1)
(* first region that contains the point, or 0                                *)
Locate(x, regions) ==
    LET ks == {k \in DOMAIN regions: InRegion(x, regions[k], 0)} IN
    IF ks = {} THEN 0 ELSE CHOOSE k \in ks: \A l \in ks: k <= l
=============================================================================
