---- MODULE GRObj ----
(* Specification objects under editing. An object has declarations (sets of <<name, domain>>),  *)
(* a list of clauses for each part, and options. Operations return [ok, objs].                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Parts == {"env_init", "env_safety", "env_prog", "sys_init", "sys_safety", "sys_prog"}
NamesIn(d) == {p[1] : p \in d}
DomIn(d, n) == (CHOOSE p \in d : p[1] = n)[2]
Range(s) == {s[k] : k \in 1..Len(s)}
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

Coherent(d, e) == \A p \in d, q \in e : p[1] = q[1] => p[2] = q[2]
Disjoint(d, e) == NamesIn(d) \cap NamesIn(e) = {}

Refuse(objs) == [ok |-> FALSE, objs |-> objs]
Accept(objs) == [ok |-> TRUE, objs |-> objs]

Create(objs, x) ==
    IF Disjoint(x.env, x.sys) THEN Accept(Append(objs, x)) ELSE Refuse(objs)

\* declaration of variables of one owner
Declare(objs, o, own, vs) ==
    LET s == objs[o]
        mine == IF own = "env" THEN s.env ELSE s.sys
        other == IF own = "env" THEN s.sys ELSE s.env
    IN IF ~ Disjoint(vs, other) \/ ~ Coherent(vs, mine) THEN Refuse(objs)
       ELSE Accept([objs EXCEPT ![o] = IF own = "env" THEN [s EXCEPT !.env = @ \cup vs] ELSE [s EXCEPT !.sys = @ \cup vs]])

Union(objs, o, p) ==
    LET a == objs[o]
        b == objs[p]
        env == a.env \cup b.env
        sys == a.sys \cup b.sys
    IN IF a.opts # b.opts \/ ~ Coherent(a.env, b.env) \/ ~ Coherent(a.sys, b.sys) \/ ~ Disjoint(env, sys) THEN Refuse(objs)
       ELSE Accept(Append(objs, [env |-> env, sys |-> sys, opts |-> a.opts,
                                 parts |-> [q \in Parts |-> a.parts[q] \o b.parts[q]]]))

Edit(objs, o, q, c) == Accept([objs EXCEPT ![o].parts[q] = c])

Apply(objs, x) ==
    CASE x.op = "new"     -> Create(objs, [env |-> Range(x.env), sys |-> Range(x.sys), opts |-> x.opts, parts |-> x.parts])
      [] x.op = "declare" -> Declare(objs, x.o, x.own, Range(x.vs))
      [] x.op = "append"  -> Edit(objs, x.o, x.part, Append(objs[x.o].parts[x.part], x.c))
      [] x.op = "extend"  -> Edit(objs, x.o, x.part, objs[x.o].parts[x.part] \o x.cs)
      [] x.op = "assign"  -> Edit(objs, x.o, x.part, x.cs)
      [] x.op = "set"     -> Edit(objs, x.o, x.part, [objs[x.o].parts[x.part] EXCEPT ![x.k] = x.c])
      [] x.op = "delete"  -> Edit(objs, x.o, x.part, Without(objs[x.o].parts[x.part], x.k))
      [] x.op = "copy"    -> Accept(Append(objs, objs[x.o]))
      [] x.op = "or"      -> Union(objs, x.o, x.p)
      [] x.op = "options" -> Accept([objs EXCEPT ![x.o].opts = x.opts])
      [] x.op = "setdom"  -> Accept([objs EXCEPT ![x.o] =
                                [@ EXCEPT !.env = {IF p[1] = x.n THEN <<x.n, x.d>> ELSE p : p \in @},
                                          !.sys = {IF p[1] = x.n THEN <<x.n, x.d>> ELSE p : p \in @}]])
      [] x.op = "query"   -> Accept(objs)

TypeOK(objs) == \A k \in 1..Len(objs) :
    /\ Disjoint(objs[k].env, objs[k].sys)
    /\ \A d \in {objs[k].env, objs[k].sys} : Cardinality(d) = Cardinality(NamesIn(d))

\* ---- primed variables, by name
Args(f) == IF "a" \in DOMAIN f THEN f.a ELSE << >>
RECURSIVE PrimedNames(_, _)
PrimedNames(f, inside) ==
    IF f.op = "name" THEN IF inside THEN {f.s} ELSE {}
    ELSE UNION {PrimedNames(Args(f)[k], inside \/ f.op = "next") : k \in 1..Len(Args(f))}
Misplaced(s, trees) ==
    \/ \E q \in Parts \ {"env_safety", "sys_safety"} : \E k \in 1..Len(s.parts[q]) : PrimedNames(trees[s.parts[q][k]], FALSE) # {}
    \/ \E k \in 1..Len(s.parts["env_safety"]) : PrimedNames(trees[s.parts["env_safety"][k]], FALSE) \cap NamesIn(s.sys) # {}
====
