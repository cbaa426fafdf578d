---- MODULE TranslateMC ----
(* All formulas with two operators over given atoms, as input for the translators. *)
EXTENDS Translate, Json
VARIABLE f
Var(k) == [op |-> "var", v |-> k]
Num(n) == [op |-> "lit", n |-> n]
Un(o, a) == [op |-> o, a |-> <<a>>]
Bi(o, a, b) == [op |-> o, a |-> <<a, b>>]
UnOps == {"not", "next", "always", "eventually"}
BiOps == {"and", "or", "imp", "iff", "xor", "until", "release", "weak"}
Cmp == {"eq", "neq", "lt", "le", "gt", "ge"}
P == Var(1)
Q == Var(2)
X == Var(3)
Atoms == {P, [op |-> "true"], [op |-> "false"]}
    \cup {Bi(o, X, Num(1)) : o \in Cmp} \cup {Bi(o, Un("next", X), Num(1)) : o \in Cmp}
    \cup {Bi(o, X, Un("next", X)) : o \in {"eq", "lt"}}
    \cup {Bi("le", Bi(o, X, Num(1)), Num(2)) : o \in {"add", "sub", "mul"}}
One == {Un(o, a) : o \in UnOps, a \in Atoms} \cup {Bi(o, a, Q) : o \in BiOps, a \in Atoms} \cup {Bi(o, Q, P) : o \in BiOps}
Two == {Un(o, a) : o \in UnOps, a \in One}
    \cup {Bi(o, Bi(p, P, Q), Un(u, P)) : o \in BiOps, p \in BiOps, u \in UnOps}
    \cup {Bi(o, Q, Bi(p, P, Q)) : o \in BiOps, p \in BiOps}
    \cup {Bi(o, Un(u, Q), Bi(p, X, Un("next", X))) : o \in BiOps, u \in UnOps, p \in {"eq", "gt"}}
Init == f \in Atoms \cup One \cup Two
Next == FALSE /\ UNCHANGED f
Emit == PrintT("@@" \o ToJson(f))
====
