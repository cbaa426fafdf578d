-------------------------------- MODULE Grid --------------------------------
(* Grid worlds: a matrix of walls, initial cells and goals.                    *)
(* Cells are 1-based here; the harness shifts the code's 0-based coordinates.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* world: [h, w, wall |-> set of cells, init |-> set, goal |-> set]            *)
Cells(g) == (1..g.h) \X (1..g.w)
Empty(g) == Cells(g) \ g.wall
Adjacent(a, b) == \/ a[1] = b[1] /\ (a[2] - b[2]) \in {-1, 1}
                  \/ a[2] = b[2] /\ (a[1] - b[1]) \in {-1, 1}
Moves(g, c) == {d \in Empty(g) : d = c \/ Adjacent(c, d)}
RECURSIVE Flood(_, _)
Flood(g, S) == LET T == S \cup UNION {Moves(g, c) : c \in S} IN IF T = S THEN S ELSE Flood(g, T)
Reachable(g, a, b) == a \in Empty(g) /\ b \in Empty(g) /\ b \in Flood(g, {a})

(* the world that has `wall` outside and the cells of g inside, shifted by off *)
Sub(g, size, off) ==
    [h |-> size[1], w |-> size[2], init |-> {}, goal |-> {},
     wall |-> {c \in (1..size[1]) \X (1..size[2]) :
                 <<c[1] + off[1], c[2] + off[2]>> \notin Empty(g)}]
SubFits(g, size, off) == /\ off[1] >= 0 /\ off[2] >= 0 /\ size[1] >= 1 /\ size[2] >= 1
                         /\ off[1] + size[1] <= g.h /\ off[2] + size[2] <= g.w
Scale(g, yf, xf) ==
    LET Up(c) == {<<(c[1]-1)*yf + i, (c[2]-1)*xf + j>> : i \in 1..yf, j \in 1..xf}
        Corner(c) == <<(c[1]-1)*yf + 1, (c[2]-1)*xf + 1>>
    IN [h |-> g.h*yf, w |-> g.w*xf, wall |-> UNION {Up(c) : c \in g.wall},
        init |-> {Corner(c) : c \in g.init}, goal |-> {Corner(c) : c \in g.goal}]
(* text symbols: an initial cell hides a goal *)
Symbol(g, c) == IF c \in g.wall THEN "*" ELSE IF c \in g.init THEN "I" ELSE IF c \in g.goal THEN "G" ELSE " "
(* trollspace: cells within radius r of the center, by infinity norm *)
Area(g, center, r) == {c \in Cells(g) : \A k \in 1..2 : (c[k] - center[k]) \in -r..r}
AreaOffset(center, r) == <<Max({0, center[1] - 1 - r}), Max({0, center[2] - 1 - r})>>
TrollMoves(g, tr, c) == Moves(g, c) \cap Area(g, tr.center, tr.r)

(* state changes of a world *)
Wrap(g, c) == <<IF c[1] < 0 THEN g.h + c[1] + 1 ELSE c[1] + 1, IF c[2] < 0 THEN g.w + c[2] + 1 ELSE c[2] + 1>>
InRange(g, c) == -g.h <= c[1] /\ c[1] < g.h /\ -g.w <= c[2] /\ c[2] < g.w
Step(g, o) ==
    CASE o.op = "occupy" -> IF InRange(g, o.c) THEN [ok |-> TRUE, g |-> [g EXCEPT !.wall = @ \cup {Wrap(g, o.c)}]]
                            ELSE [ok |-> FALSE, g |-> g]
      [] o.op = "clear" -> IF InRange(g, o.c) THEN [ok |-> TRUE, g |-> [g EXCEPT !.wall = @ \ {Wrap(g, o.c)}]]
                           ELSE [ok |-> FALSE, g |-> g]
      [] o.op = "init" -> [ok |-> TRUE, g |-> [g EXCEPT !.init = Range(o.cs)]]
      [] o.op = "goal" -> [ok |-> TRUE, g |-> [g EXCEPT !.goal = Range(o.cs)]]
      [] o.op = "sub" -> IF o.extend \/ SubFits(g, o.size, o.off)
                         THEN [ok |-> TRUE, g |-> Sub(g, o.size, o.off)] ELSE [ok |-> FALSE, g |-> g]
      [] o.op = "scale" -> [ok |-> TRUE, g |-> Scale(g, o.yf, o.xf)]
      \* copies and a round trip through text keep the world
      [] OTHER -> [ok |-> TRUE, g |-> g]
=============================================================================
