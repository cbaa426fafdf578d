----------------------------- MODULE DeadEndMC -----------------------------
(* All graphs on three states with all initial sets (one state per graph).    *)
EXTENDS LGraph, Json
V == {"a", "b", "c"}
cfg == [nt |-> <<>>, et |-> <<>>, acc |-> FALSE]
VARIABLE st
Init == \E E \in SUBSET (V \X V) : \E I \in SUBSET V :
    st = [V |-> V, L |-> [v \in V |-> <<>>], E |-> {<<e[1], e[2], <<>>>> : e \in E},
          I |-> I, A |-> {}, nd |-> <<>>, ed |-> <<>>]
Next == FALSE /\ UNCHANGED st
RECURSIVE Path(_, _)
Path(s, n) == n = 0 \/ \E e \in st.E : e[1] = s /\ Path(e[2], n - 1)
(* the greatest fixpoint is the set of states with a path of |V| edges, *)
(* and equals what repeated removal of dead ends leaves *)
RECURSIVE Peel(_)
Peel(s) == LET D == {v \in s.V : ~\E e \in s.E : e[1] = v}
           IN IF D = {} THEN s ELSE Peel(DropStates(s, D))
Definition ==
    LET r == Step(cfg, st, [op |-> "deadends"])
    IN /\ r.st.V = {s \in V : Path(s, 3)}
       /\ r.st = Peel(st)
       /\ ~HasDeadends(r.st)
       /\ Consistent(cfg, r.st)
Emit == PrintT("@@" \o ToJson([e |-> {<<e[1], e[2]>> : e \in st.E}, i |-> st.I]))
=============================================================================
