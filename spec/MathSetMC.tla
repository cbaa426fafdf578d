------------------------------ MODULE MathSetMC ------------------------------
(* Exhaustive exploration of a small instance; emits one shortest history per  *)
(* reachable state.  The harness replays each history and then every operation *)
(* of the alphabet.                                                            *)
EXTENDS MathSet, Json, IOUtils
CONSTANT MaxLen
Conf == JsonDeserialize(IOEnv.CONF)
Alphabet == Range(Conf.alphabet)
VARIABLES st, hist
Init == st = Start(Conf.cfg) /\ hist = <<>>
Next == \E o \in Alphabet :
            /\ Len(hist) < MaxLen
            /\ LET r == TLCEval(Step(st, o))
               IN r.ok /\ r.v = {} /\ r.st # st /\ st' = r.st /\ hist' = Append(hist, o)
View == st
Guarded == SubsetGuard(st)
WellTyped == \A k \in {1, 2} : st.d[k] = NoValue \/ st.d[k] \in st.typ[k]
RejectKeeps == \A o \in Alphabet : LET r == Step(st, o) IN r.ok \/ r.st = st
(* the operations are the set algebra *)
Algebra == \A x, y \in {"a", "b", "sub"} :
    LET U == Step(st, [op |-> "union", x |-> "a", y |-> x, z |-> y, es |-> <<>>]).st.s["a"]
        D == Step(st, [op |-> "minus", x |-> "a", y |-> x, z |-> y, es |-> <<>>]).st.s["a"]
        I == Step(st, [op |-> "inter", x |-> "a", y |-> x, z |-> y, es |-> <<>>]).st.s["a"]
        P == Query(st, [q |-> "product", x |-> x, y |-> y])
    IN /\ U = D \cup I \cup (st.s[y] \ st.s[x])
       /\ D \cap st.s[y] = {}
       /\ Cardinality(U) + Cardinality(I) = Cardinality(st.s[x]) + Cardinality(st.s[y])
       /\ Cardinality(P) = Cardinality(st.s[x]) * Cardinality(st.s[y])
       /\ Cardinality(Query(st, [q |-> "psets"])) = Query(st, [q |-> "plen"])
Emit == PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
