------------------------------- MODULE GridMC -------------------------------
(* All worlds of a given size; reachability, subworlds and scaling against     *)
(* independent definitions.                                                    *)
EXTENDS Grid, Json
CONSTANTS H, W
VARIABLE g
All == (1..H) \X (1..W)
Init == \E wall \in SUBSET All :
          \E init \in {{}} \cup {{c} : c \in All \ wall} : \E goal \in {{}} \cup {{c} : c \in All \ wall} :
          g = [h |-> H, w |-> W, wall |-> wall, init |-> init, goal |-> goal]
Next == UNCHANGED g
(* a path exists iff the cells connect in at most |cells| steps *)
RECURSIVE PathTo(_, _, _)
PathTo(a, b, n) == a = b \/ (n > 0 /\ \E d \in Empty(g) : Adjacent(a, d) /\ PathTo(d, b, n - 1))
ReachOk == \A a, b \in {c \in Empty(g) : g.init = {} /\ g.goal = {}} :
               Reachable(g, a, b) <=> PathTo(a, b, Cardinality(Empty(g)))
SymmetricOk == \A a, b \in Empty(g) : b \in Moves(g, a) <=> a \in Moves(g, b)
ScaleOk == /\ Scale(g, 1, 1) = g
           /\ Scale(Scale(g, 2, 1), 1, 3) = Scale(g, 2, 3)
           /\ Cardinality(Scale(g, 2, 3).wall) = 6 * Cardinality(g.wall)
SubOk == /\ Sub(g, <<g.h, g.w>>, <<0, 0>>).wall = g.wall
         /\ Cardinality(Sub(g, <<2, 2>>, <<H, 0>>).wall) = 4
         /\ Sub(Sub(g, <<H+2, W+2>>, <<-1, -1>>), <<H, W>>, <<1, 1>>).wall = g.wall
Emit == PrintT("@@" \o ToJson([h |-> g.h, w |-> g.w, wall |-> SetToSeq(g.wall),
                               init |-> SetToSeq(g.init), goal |-> SetToSeq(g.goal)]))
=============================================================================
