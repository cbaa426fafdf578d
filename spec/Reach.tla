-------------------------------- MODULE Reach --------------------------------
(* Reachability for integer linear systems with inputs and disturbances      *)
(*     x' = A x + B u + E d + K,   u in U(x),   d in W                       *)
(* Numbers count quarters. Corners of boxes are whole, i.e., multiples of 4. *)
(* Multiples of 2 represent faces of the lattice: 4k is the vertex k,        *)
(* 4k + 2 the open interval ]k, k + 1[. For systems where each coordinate    *)
(* of the successor depends on at most one state and one input, with         *)
(* coefficients in -1..1, sets below are unions of faces, so computing with  *)
(* representatives of faces is exact (this is an invariant of ReachMC).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Dot(a, x) == FoldLeft(LAMBDA acc, k: acc + a[k] * x[k], 0, [k \in DOMAIN a |-> k])
Post(s, x, u, d) == [k \in DOMAIN s.A |-> Dot(s.A[k], x) + Dot(s.B[k], u) + Dot(s.E[k], d) + s.K[k]]
Product(ranges) == FoldLeft(LAMBDA acc, r: {Append(t, v): t \in acc, v \in r}, {<<>>}, ranges)
Steps(lo, hi, step) == {lo + step * k: k \in 0..((hi - lo) \div step)}
Points(box, step) == Product([k \in DOMAIN box |-> Steps(box[k][1], box[k][2], step)])
InBox(b, x) == \A k \in DOMAIN b: b[k][1] <= x[k] /\ x[k] <= b[k][2]
InsideBox(b, x) == \A k \in DOMAIN b: b[k][1] < x[k] /\ x[k] < b[k][2]
Faces(boxes) == UNION {Points(boxes[k], 2): k \in DOMAIN boxes}
InsideFaces(b) == {x \in Points(b, 2): InsideBox(b, x)}
Odd(q) == q % 4 = 2
IsCell(x) == \A k \in DOMAIN x: Odd(x[k])
Cells(S) == {x \in S: IsCell(x)}
\* the face that contains a point
Face(x) == [k \in DOMAIN x |-> IF x[k] % 4 = 0 THEN x[k] ELSE 4 * (x[k] \div 4) + 2]
\* inputs: box `ubox`, and half-spaces <<a, c, b>> for  a u + c x <= b
Allowed(s, x, u) == \A k \in DOMAIN s.U: Dot(s.U[k][1], u) + Dot(s.U[k][2], x) <= s.U[k][3]
StrictlyAllowed(s, x, u) ==
    /\ InsideBox(s.ubox, u)
    /\ \A k \in DOMAIN s.U: Dot(s.U[k][1], u) + Dot(s.U[k][2], x) < s.U[k][3]
Disturbances(s) == IF s.W = <<>> THEN {[k \in 1..Len(s.E[1]) |-> 0]} ELSE Points(s.W, 2)
Corners(s) == IF s.W = <<>> THEN {[k \in 1..Len(s.E[1]) |-> 0]}
              ELSE Product([k \in DOMAIN s.W |-> {s.W[k][1], s.W[k][2]}])
Calm(s) == s.W = <<>> \/ \A k \in DOMAIN s.E: \A l \in DOMAIN s.E[k]: s.E[k][l] = 0 \/ s.W[l] = <<0, 0>>
(* points of S from where some input leads to X for every disturbance        *)
Pre(s, S, X(_)) ==
    LET us == TLCEval(Points(s.ubox, 2))
        ds == TLCEval(IF Calm(s) THEN Corners(s) ELSE Disturbances(s)) IN
    {x \in S: \E u \in us: Allowed(s, x, u) /\ \A d \in ds: X(Post(s, x, u, d))}
(* same with inputs strictly inside U, so that the inputs have a volume;     *)
(* X is an open set                                                          *)
StrictPre(s, S, X(_)) ==
    LET us == TLCEval(Points(s.ubox, 1))
        ds == TLCEval(IF Calm(s) THEN {CHOOSE d \in Corners(s): TRUE} ELSE Disturbances(s)) IN
    {x \in S: \E u \in us: StrictlyAllowed(s, x, u) /\ \A d \in ds: X(Post(s, x, u, d))}
(* closed loop: the input depends on the current state                       *)
RECURSIVE Exactly(_, _, _, _, _)
Exactly(s, P1, T, P2, n) ==
    LET next == TLCEval(IF n = 1 THEN P2 ELSE Exactly(s, T, T, P2, n - 1)) IN
    Pre(s, P1, LAMBDA y: y \in next)
RECURSIVE Attract(_, _, _, _)
Attract(s, T, P2, n) ==
    IF n = 0 THEN P2 ELSE
    LET now == TLCEval(Attract(s, T, P2, n - 1)) IN now \cup Pre(s, T, LAMBDA y: y \in now)
\* in 1..n steps
Within(s, P1, T, P2, n) ==
    LET now == TLCEval(Attract(s, T, P2, n - 1)) IN Pre(s, P1, LAMBDA y: y \in now)
(* open loop: inputs are fixed at the start. The effect of disturbances on   *)
(* each coordinate after k steps is an interval.                             *)
Scale(c, i) == IF c >= 0 THEN <<c * i[1], c * i[2]>> ELSE <<c * i[2], c * i[1]>>
Sum(is) == FoldLeft(LAMBDA acc, i: <<acc[1] + i[1], acc[2] + i[2]>>, <<0, 0>>, is)
RECURSIVE Drift(_, _)
Drift(s, k) ==
    IF k = 0 \/ s.W = <<>> THEN [j \in DOMAIN s.A |-> <<0, 0>>] ELSE
    LET old == TLCEval(Drift(s, k - 1)) IN
    [j \in DOMAIN s.A |-> Sum(<<Sum([i \in DOMAIN s.A[j] |-> Scale(s.A[j][i], old[i])]),
                                Sum([i \in DOMAIN s.E[j] |-> Scale(s.E[j][i], s.W[i])])>>)]
Erode(b, drift) == [k \in DOMAIN b |-> <<b[k][1] - drift[k][1], b[k][2] - drift[k][2]>>]
\* undisturbed system, with inputs that remain allowed after k steps
Nominal(s, k) ==
    LET drift == TLCEval(Drift(s, k)) IN
    [s EXCEPT !.W = <<>>,
              !.U = [r \in DOMAIN s.U |-> <<s.U[r][1], s.U[r][2], s.U[r][3] - Sum([i \in DOMAIN s.U[r][2] |-> Scale(s.U[r][2][i], drift[i])])[2]>>]]
RECURSIVE Ahead(_, _, _, _, _, _, _)
\* P1, T, P2 are boxes; step k of n
Ahead(s, P1, T, P2, k, n, strict) ==
    LET target == Erode(IF k + 1 = n THEN P2 ELSE T, TLCEval(Drift(s, k + 1)))
        from == IF k = 0 THEN P1 ELSE Erode(T, TLCEval(Drift(s, k)))
        next == TLCEval(IF k + 1 = n THEN {} ELSE Ahead(s, P1, T, P2, k + 1, n, strict)) IN
    IF strict
    THEN StrictPre(Nominal(s, k), InsideFaces(from), LAMBDA y: IF k + 1 = n THEN InsideBox(target, y) ELSE Face(y) \in next)
    ELSE Pre(Nominal(s, k), Points(from, 2), LAMBDA y: IF k + 1 = n THEN InBox(target, y) ELSE y \in next)
(* what convex computations find: every set is the interior of a box         *)
RECURSIVE Firmly(_, _, _, _, _)
Firmly(s, P1, T, P2, n) ==
    LET next == TLCEval(IF n = 1 THEN {} ELSE Firmly(s, T, T, P2, n - 1)) IN
    StrictPre(s, InsideFaces(P1), LAMBDA y: IF n = 1 THEN InsideBox(P2, y) ELSE Face(y) \in next)
(* without disturbances: sets are unions of cells                            *)
RECURSIVE Calmly(_, _, _, _, _, _)
Calmly(s, P1, T, P2, n, all) ==
    LET later == TLCEval(IF n = 1 THEN P2 ELSE Calmly(s, T, T, P2, n - 1, all))
        next == IF all THEN later \cup P2 ELSE later IN
    StrictPre(s, P1, LAMBDA y: Face(y) \in next)
(* the two bounds on the cells that a computation finds; `q` says which      *)
Trans(q) == IF q.T = <<>> THEN q.P1 ELSE q.T
Upper(s, q) ==
    LET p1 == TLCEval(Faces(q.P1))
        p2 == TLCEval(Faces(q.P2))
        t == TLCEval(Faces(Trans(q))) IN
    IF q.closed
    THEN IF q.all THEN Within(s, p1, t, p2, q.N) ELSE Exactly(s, p1, t, p2, q.N)
    ELSE IF q.N = 1 \/ Calm(s) THEN Exactly(s, p1, t, p2, q.N)
    ELSE Ahead(s, q.P1[1], Trans(q)[1], q.P2[1], 0, q.N, FALSE)
Lower(s, q) ==
    LET single == Len(q.P1) = 1 /\ Len(q.P2) = 1 /\ Len(Trans(q)) = 1
        pairs(n) == UNION {Firmly(s, q.P1[a], IF q.T = <<>> THEN q.P1[a] ELSE q.T[1], q.P2[b], n): a \in DOMAIN q.P1, b \in DOMAIN q.P2}
        calm == Calmly(s, Cells(Faces(q.P1)), Cells(Faces(Trans(q))), Cells(Faces(q.P2)), q.N, q.all) IN
    IF q.N = 1 THEN pairs(1)
    ELSE IF q.closed /\ q.all THEN IF Calm(s) THEN calm ELSE {}
    ELSE IF q.closed THEN IF single THEN pairs(q.N) ELSE IF Calm(s) THEN calm ELSE {}
    ELSE IF single THEN Ahead(s, q.P1[1], Trans(q)[1], q.P2[1], 0, q.N, TRUE)
    ELSE IF Calm(s) THEN pairs(q.N) ELSE {}
=============================================================================
