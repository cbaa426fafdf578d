------------------------------ MODULE LGraphMC ------------------------------
(* Exhaustive exploration of a small instance; emits one shortest history per  *)
(* reachable state of the graph.                                               *)
EXTENDS LGraph, Json, IOUtils
CONSTANTS MaxLen, Stride, Offset
Conf == JsonDeserialize(IOEnv.CONF)
c == Conf.cfg
Alphabet == Range(Conf.alphabet)
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start(c) /\ hist = <<>>
Next == \E o \in Alphabet :
            /\ Len(hist) < MaxLen
            /\ LET r == TLCEval(Step(c, st, o))
               IN /\ r.ok
                  /\ r.st # st
                  /\ st' = r.st
                  /\ hist' = Append(hist, o)
View == st
Inv == Consistent(c, st)
(* properties of the reference operators themselves *)
DeadEnds ==
    LET r == Step(c, st, [op |-> "deadends"])
        (* independent definition: a path of |V| steps exists *)
        RECURSIVE Path(_, _)
        Path(s, n) == n = 0 \/ \E e \in st.E : e[1] = s /\ Path(e[2], n - 1)
        live == {s \in st.V : Path(s, Cardinality(st.V))}
    IN /\ r.st.V = live
       /\ ~HasDeadends(r.st)
       /\ r.st.I = st.I \cap live
       /\ r.st.E = {e \in st.E : e[1] \in live /\ e[2] \in live}
RejectKeeps == \A o \in Alphabet : LET r == Step(c, st, o)
                                  IN (~r.ok /\ o.op # "bulk" /\ o.op # "deadends") => r.st = st
Emit == PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
