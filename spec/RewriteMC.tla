---- MODULE RewriteMC ----
(* Substitution by syntax agrees with substitution by valuation. *)
EXTENDS Rewrite
VARIABLES f, d
A(k) == [op |-> "var", v |-> k]
Un(o, a) == [op |-> o, a |-> <<a>>]
Bi(o, a, b) == [op |-> o, a |-> <<a, b>>]
Leaf == {A(1), A(2), A(3), Un("next", A(1)), Un("next", A(2))}
One == Leaf \cup {Un("not", x) : x \in Leaf} \cup {Bi(o, x, y) : o \in {"and", "imp", "xor"}, x \in Leaf, y \in Leaf}
Now == {A(1), A(2), Bi("or", A(2), A(3)), Bi("iff", A(1), A(3))}
Init == f \in One \cup {Un("next", x) : x \in {g \in One : Primed(g, FALSE) = {}}} \cup {Bi("iff", x, y) : x \in One, y \in {A(1), Un("next", A(2))}}
        /\ d \in {<<x, y>> : x, y \in Now}
Next == FALSE /\ UNCHANGED <<f, d>>
RECURSIVE Sub(_)
\* variables 1 and 2 replaced by d[1] and d[2]
Sub(g) == IF g.op = "var" THEN IF g.v <= 2 THEN d[g.v] ELSE g
          ELSE IF "a" \in DOMAIN g THEN [g EXCEPT !.a = [k \in 1..Len(g.a) |-> Sub(g.a[k])]] ELSE g
V == [1..3 -> {0, 1}]
Dep == <<[v |-> 1, g |-> d[1]], [v |-> 2, g |-> d[2]]>>
Agree == LET R == TLCEval([s \in V |-> Redefine(s, Dep)])
             g == TLCEval(Sub(f))
         IN \A s, t \in V : EvalB(g, s, t) = EvalB(f, R[s], R[t])
Supports == d[1] # A(1) \/ d[2] # A(2) \/ \A s, t, u \in V : (\A v \in Primed(f, FALSE) : t[v] = u[v]) => EvalB(f, s, t) = EvalB(f, s, u)
====
