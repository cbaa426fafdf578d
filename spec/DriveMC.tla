------------------------------ MODULE DriveMC --------------------------------
(* One-dimensional plants that follow a plan of inputs, with an environment  *)
(* that picks disturbances.                                                  *)
EXTENDS Drive, Json
CONSTANTS Emitting, Steps_, Side
VARIABLES s, q, x, plan, at, k
Box(lo, hi) == <<<<lo, hi>>>>
Whole == {4 * z: z \in 0..Side}
Ranges == {<<a, b>> \in Whole \X Whole: a < b}
\* inputs that depend on the state: u + x <= cap
System(a, e, c, u, w, cap) ==
    [A |-> <<<<a>>>>, B |-> <<<<1>>>>, E |-> <<<<e>>>>, K |-> <<c>>, ubox |-> <<u>>, W |-> <<w>>,
     U |-> <<<<<<-1>>, <<0>>, 0 - u[1]>>, <<<<1>>, <<0>>, u[2]>>, <<<<1>>, <<1>>, cap>>>>]
Start == <<0, 4 * Side>>
Query(p2, n) == [P1 |-> <<<<Start>>>>, P2 |-> <<<<p2>>>>, T |-> <<<<Start>>>>, N |-> n, closed |-> FALSE, all |-> FALSE]
X(z) == <<Fine * z>>
Init == /\ s \in {System(a, e, c, u, w, cap): a \in {-1, 1}, e \in {0, 1}, c \in {0, 4}, u \in {<<-4, 0>>, <<-4, 4>>}, w \in {<<0, 4>>, <<-4, 0>>}, cap \in {4, 40}}
        /\ q \in {Query(p2, n): p2 \in Ranges, n \in 1..Steps_}
        /\ x \in {X(z): z \in {z \in Start[1]..Start[2]: z % 2 = 0}}
        /\ plan \in Plans(s, q.N)
        /\ at = x
        /\ k = 0
Ends == <<q.P2[1]>>
IsRobust == Robust(s, x, plan, q.P1[1], Ends, 0)
\* the environment moves
Next == /\ k < q.N
        /\ \E d \in Points(s.W, 2): at' = Post(Finely(s), at, plan[k + 1], [j \in DOMAIN d |-> Fine * d[j]])
        /\ k' = k + 1
        /\ UNCHANGED <<s, q, x, plan>>
InTube == LET b == Tube(s, x, plan)[k + 1] IN \A j \in DOMAIN at: b[j][1] <= at[j] /\ at[j] <= b[j][2]
Keeps == IsRobust =>
    /\ k < q.N => Permitted(s, PointBox(at), plan[k + 1], 0)
    /\ (k > 0 /\ k < q.N) => SubBox(PointBox(at), q.P1[1], 0)
    /\ k = q.N => SubBox(PointBox(at), q.P2[1], 0)
\* a plan that is not robust fails for some disturbances
RECURSIVE Survives(_, _, _)
Survives(y, us, n) ==
    \/ us = <<>> /\ SubBox(PointBox(y), q.P2[1], 0)
    \/ /\ us # <<>>
       /\ n = 0 \/ SubBox(PointBox(y), q.P1[1], 0)
       /\ Permitted(s, PointBox(y), Head(us), 0)
       /\ \A d \in Corners(s): Survives(Post(Finely(s), y, Head(us), [j \in DOMAIN d |-> Fine * d[j]]), Tail(us), n + 1)
OnlyRobust == k = 0 => IsRobust = Survives(x, plan, 0)
\* robust plans and sets of Reach
Quarter == [j \in DOMAIN x |-> x[j] \div Fine]
Reaches == (k = 0 /\ IsRobust) => Face(Quarter) \in TLCEval(Upper(s, q))
First == k = 0 /\ \A j \in 1..q.N: plan[j] = X(s.ubox[1][1])
Plans_ == (First /\ IsCell(Quarter) /\ Face(Quarter) \in TLCEval(Lower(s, q))) => \E p \in Plans(s, q.N): Robust(s, x, p, q.P1[1], Ends, 0)
\* the first step of a robust plan is one of closed loop, and calm plans are seen by `Inside`
Steps1 == (k = 0 /\ IsRobust) => FirstStep(s, x, plan[1], q.P1[1], Ends, q.N = 1, 0)
Nominals == k = 0 => (Robust(Calmed(s), x, plan, q.P1[1], Ends, 0) =>  Inside(s, x, plan, q.P1, Ends))
Emit == k = 0 => PrintT("@@" \o ToJson([sys |-> s, x |-> x, us |-> plan, P0 |-> q.P1, P1 |-> Ends, inside |-> Inside(s, x, plan, q.P1, Ends)]))
NoNext == FALSE /\ UNCHANGED <<s, q, x, plan, at, k>>
=============================================================================
