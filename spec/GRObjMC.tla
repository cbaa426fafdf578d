---- MODULE GRObjMC ----
(* Histories of operations on two specifications. *)
EXTENDS GRObj, Json
CONSTANT Depth
VARIABLES objs, hist
B == [kind |-> "bool", lo |-> 0, hi |-> 1, vals |-> << >>]
E == [kind |-> "enum", lo |-> 0, hi |-> 1, vals |-> <<"u", "v">>]
E2 == [kind |-> "enum", lo |-> 0, hi |-> 1, vals |-> <<"v", "u">>]
None == [q \in Parts |-> << >>]
Start == <<[env |-> {<<"e", B>>}, sys |-> {<<"x", E>>}, opts |-> "o1", parts |-> [None EXCEPT !["sys_init"] = <<"c1">>]]>>
Objs == 1..Len(objs)
Ops == {[op |-> "declare", o |-> o, own |-> w, vs |-> vs] : o \in Objs, w \in {"env", "sys"}, vs \in {<<<<"e", B>>>>, <<<<"y", B>>, <<"x", E>>>>, <<<<"y", B>>, <<"x", E2>>>>}}
    \cup {[op |-> "append", o |-> o, part |-> q, c |-> c] : o \in Objs, q \in {"sys_init", "sys_prog"}, c \in {"c1", "c2"}}
    \cup {[op |-> "delete", o |-> o, part |-> "sys_init", k |-> 1] : o \in {k \in Objs : objs[k].parts["sys_init"] # << >>}}
    \cup {[op |-> "copy", o |-> o] : o \in IF Len(objs) < 3 THEN Objs ELSE {}}
    \cup {[op |-> "or", o |-> o, p |-> p] : o \in IF Len(objs) < 3 THEN Objs ELSE {}, p \in Objs}
    \cup {[op |-> "options", o |-> o, opts |-> "o2"] : o \in Objs}
    \cup {[op |-> "setdom", o |-> o, n |-> "x", d |-> d] : o \in Objs, d \in {E, E2}}
    \cup {[op |-> "query", o |-> o, q |-> q] : o \in Objs, q \in {"ints", "ast", "dump"}}
Init == objs = Start /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E x \in Ops : objs' = Apply(objs, x).objs /\ hist' = Append(hist, x)
Inv == TypeOK(objs)
\* an operation changes at most the object it is applied to, and earlier objects stay
Local == [][\A k \in Objs : k <= Len(objs') /\ (hist'[Len(hist')].o # k => objs'[k] = objs[k])]_<<objs, hist>>
Refused == [][LET x == hist'[Len(hist')] IN ~ Apply(objs, x).ok => objs' = objs]_<<objs, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
====
