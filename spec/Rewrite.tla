---- MODULE Rewrite ----
(* Rewriting passes over specifications: meaning of formulas after substitutions,   *)
(* and identifiers. Formulas as in Formula.tla; "named" trees have names for variables. *)
EXTENDS Formula, TLC

Args(f) == IF "a" \in DOMAIN f THEN f.a ELSE << >>

\* a state in which dependent variables take the values of their definitions, simultaneously
Redefine(s, dep) ==
    [v \in 1..Len(s) |->
        IF \E k \in 1..Len(dep) : dep[k].v = v
        THEN LET k == CHOOSE k \in 1..Len(dep) : dep[k].v = v
             IN IF EvalB(dep[k].g, s, s) THEN 1 ELSE 0
        ELSE s[v]]

RECURSIVE VarsOf(_), Primed(_, _), Undeclared(_, _), Variable(_), Names(_)
VarsOf(f) == IF f.op = "var" THEN {f.v} ELSE UNION {VarsOf(Args(f)[k]) : k \in 1..Len(Args(f))}
\* variables in the scope of a "next" operator
Primed(f, inside) ==
    IF f.op = "var" THEN IF inside THEN {f.v} ELSE {}
    ELSE UNION {Primed(Args(f)[k], inside \/ f.op = "next") : k \in 1..Len(Args(f))}

Names(f) == IF f.op = "name" THEN {f.s} ELSE UNION {Names(Args(f)[k]) : k \in 1..Len(Args(f))}
\* the variable that a string is compared to
Variable(f) == IF f.op = "next" THEN Variable(f.a[1]) ELSE IF f.op = "name" THEN f.s ELSE ""
\* a name that is neither a variable nor (in quotes) a value of the variable it is compared to
Undeclared(f, doms) ==
    \/ f.op = "name" /\ ~ \E k \in 1..Len(doms) : doms[k].name = f.s
    \/ /\ f.op \in {"eq", "neq"}
       /\ \E j \in {1, 2} :
            /\ f.a[j].op = "str"
            /\ ~ \E k \in 1..Len(doms) : doms[k].name = Variable(f.a[3 - j]) /\ f.a[j].s \in {doms[k].vals[n] : n \in 1..Len(doms[k].vals)}
    \/ \E k \in 1..Len(Args(f)) : Undeclared(Args(f)[k], doms)
====
