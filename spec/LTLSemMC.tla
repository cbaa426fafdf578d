---- MODULE LTLSemMC ----
(* The lasso semantics against the definition over positions of the unrolled word. *)
EXTENDS LTLSem
CONSTANT N
V == {<<p, q>> : p, q \in {0, 1}}
A == [op |-> "var", v |-> 1]
B == [op |-> "var", v |-> 2]
U1(o, a) == [op |-> o, a |-> <<a>>]
U2(o, a, b) == [op |-> o, a |-> <<a, b>>]
Base == {A, B, U1("not", A), U2("and", A, U1("next", B)), U2("xor", U1("next", A), B), U1("eventually", B), U1("always", A)}
VARIABLES w, l, f, g
Init == /\ w \in UNION {Words(V, n) : n \in 1..N}
        /\ l \in 1..Len(w)
        /\ f \in Base
        /\ g \in Base
Next == FALSE /\ UNCHANGED <<w, l, f, g>>
\* k steps after position i
RECURSIVE Pos(_, _)
Pos(i, k) == IF k = 0 THEN i ELSE Pos(After(i, w, l), k - 1)
K == 0..(2 * Len(w))
H(x, i) == Holds(x, w, l)[i]
Definition ==
    \A i \in 1..Len(w) :
        /\ H(U1("eventually", f), i) = (\E k \in K : H(f, Pos(i, k)))
        /\ H(U1("always", f), i) = (\A k \in K : H(f, Pos(i, k)))
        /\ H(U1("next", f), i) = H(f, Pos(i, 1))
        /\ H(U2("until", f, g), i) = (\E k \in K : H(g, Pos(i, k)) /\ \A j \in 0..(k-1) : H(f, Pos(i, j)))
        /\ H(U2("weak", f, g), i) = (H(U2("until", f, g), i) \/ H(U1("always", f), i))
        /\ H(U2("release", f, g), i) = (\A k \in K : H(g, Pos(i, k)) \/ \E j \in 0..(k-1) : H(f, Pos(i, j)))
====
