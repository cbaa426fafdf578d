------------------------------ MODULE ReachMC --------------------------------
(* One-dimensional systems x' = a x + u + e d + c, with a game played on     *)
(* quarters: the controller follows the sets of Reach, which represent faces *)
(* of the lattice; the environment picks any disturbance.                    *)
EXTENDS Reach, Json
CONSTANTS Emitting, Steps_, Side
VARIABLES s, q, x, k, up
Box(lo, hi) == <<<<lo, hi>>>>
Whole == {4 * z: z \in 0..Side}
Ranges == {<<a, b>> \in Whole \X Whole: a < b}
System(a, e, c, u, w) ==
    [A |-> <<<<a>>>>, B |-> <<<<1>>>>, E |-> <<<<e>>>>, K |-> <<c>>, ubox |-> <<u>>, W |-> <<w>>,
     U |-> <<<<<<-1>>, <<0>>, 0 - u[1]>>, <<<<1>>, <<0>>, u[2]>>>>]
Query(p1, p2, t, n, closed, all) ==
    [P1 |-> <<<<p1>>>>, P2 |-> <<<<p2>>>>, T |-> <<<<t>>>>, N |-> n, closed |-> closed, all |-> all]
Start == <<0, 4 * Side>>
Init == /\ s \in {System(a, e, c, u, w): a \in {-1, 1}, e \in {0, 1}, c \in {0, 4}, u \in {<<-4, 0>>, <<-4, 8>>}, w \in {<<0, 4>>, <<-4, 4>>}}
        /\ q \in {Query(Start, p2, t, n, cl, FALSE): p2 \in Ranges, t \in {Start, <<0, 4>>}, n \in 1..Steps_, cl \in BOOLEAN}
                 \cup {Query(Start, p2, Start, n, TRUE, TRUE): p2 \in Ranges, n \in 1..Steps_}
        /\ up = Upper(s, q)
        /\ k = 0
        /\ x \in {<<z>>: z \in Start[1]..Start[2]}
(* sets that a controller aims for after k steps *)
Aim(j) ==
    LET t == Faces(q.T)
        p2 == Faces(q.P2) IN
    IF j = 0 THEN up
    ELSE IF q.all THEN Attract(s, t, p2, q.N - j)
    ELSE IF j = q.N THEN p2 ELSE Exactly(s, t, t, p2, q.N - j)
Inputs(y, target) ==
    {u \in Points(s.ubox, 1): Allowed(s, y, u) /\ \A d \in Points(s.W, 1): Face(Post(s, y, u, d)) \in target}
Done == q.all /\ k > 0 /\ Face(x) \in Faces(q.P2)
Playing == q.closed /\ k < q.N /\ ~ Done /\ Face(x) \in TLCEval(Aim(k))
Next == /\ Playing
        /\ LET target == TLCEval(Aim(k + 1)) IN
           \E u \in Inputs(x, target): \E d \in Points(s.W, 1): x' = Post(s, x, u, d)
        /\ k' = k + 1
        /\ UNCHANGED <<s, q, up>>
\* from sets of Reach, the controller can always proceed; from other points it cannot
Moves == Playing => Inputs(x, TLCEval(Aim(k + 1))) # {}
Exact == (k = 0 /\ q.closed /\ Face(x) \notin up) => Inputs(x, TLCEval(Aim(1))) = {}
\* plays stay within T, and arrive
Stays == (k > 0 /\ k < q.N /\ ~ Done) => Face(x) \in Faces(q.T)
Arrives == (k = q.N) => Face(x) \in Faces(q.P2)
\* relations between sets
First == x = <<0>> /\ k = 0
Bounds == First => Lower(s, q) \cap Cells(up) \subseteq up /\ Cells(Lower(s, q)) \subseteq up
OpenClosed == (First /\ ~ q.closed) =>
    LET c == Exactly(s, Faces(q.P1), Faces(q.T), Faces(q.P2), q.N) IN
    up \subseteq c /\ (s.E = <<<<0>>>> \/ q.N = 1 => up = c)
\* without disturbances, open loop computed with boxes is the same
Nominally == (First /\ ~ q.closed /\ Calm(s)) => Ahead(s, q.P1[1], q.T[1], q.P2[1], 0, q.N, FALSE) = up
AllHorizon == (First /\ q.all) => \A n \in 1..q.N: Exactly(s, Faces(q.P1), Faces(q.T), Faces(q.P2), n) \subseteq up
Emit == First => PrintT("@@" \o ToJson([sys |-> s, q |-> q, up |-> SetToSeq(Cells(up)), low |-> SetToSeq(Cells(Lower(s, q)))]))
NoNext == FALSE /\ UNCHANGED <<s, q, x, k, up>>
=============================================================================
