---- MODULE Fragment ----
(* The GR(1) fragment of linear temporal logic: splitting of conjunctions into initial condition, *)
(* safety, and recurrence, and reductions of other formulas using auxiliary Boolean variables.     *)
EXTENDS LTLSem

Op1(o, a) == [op |-> o, a |-> <<a>>]
Op2(o, a, b) == [op |-> o, a |-> <<a, b>>]
Tr == [op |-> "true"]
Temporal == {"always", "eventually", "until", "weak", "release"}
Args(f) == IF "a" \in DOMAIN f THEN f.a ELSE << >>
RECURSIVE Has(_, _)
Has(f, ops) == f.op \in ops \/ \E k \in DOMAIN Args(f) : Has(f.a[k], ops)

\* ---- splitting
RECURSIVE Conjuncts(_)
Conjuncts(f) == IF f.op = "and" THEN Conjuncts(f.a[1]) \o Conjuncts(f.a[2]) ELSE <<f>>
\* which part of the specification a conjunct belongs to, and the condition there
Kind(f) ==
    IF f.op # "always" THEN IF Has(f, Temporal \cup {"next"}) THEN "outside" ELSE "init"
    ELSE IF f.a[1].op = "eventually"
         THEN IF Has(f.a[1].a[1], Temporal \cup {"next"}) THEN "outside" ELSE "GF"
         ELSE IF Has(f.a[1], Temporal) THEN "outside" ELSE "G"
Core(f) == CASE Kind(f) = "init" -> f [] Kind(f) = "G" -> f.a[1] [] Kind(f) = "GF" -> f.a[1].a[1]
InFragment(f) == LET c == Conjuncts(f) IN \A k \in DOMAIN c : Kind(c[k]) # "outside"
Split(f) ==
    LET c == Conjuncts(f)
        Part(kind) == LET s == SelectSeq(c, LAMBDA x : Kind(x) = kind) IN [k \in DOMAIN s |-> Core(s[k])]
    IN [init |-> Part("init"), G |-> Part("G"), GF |-> Part("GF")]

\* ---- behaviours of [init, safety, prog] with auxiliary variables
\* w is a word over the original variables; auxiliary variables are appended to each state.
Extend(s, a) == s \o a
Aux(m) == [1..m -> {0, 1}]
\* a run exists in the graph of pairs <<position, auxiliary values>>
HasRun(x, m, w, l) ==
    LET Nodes == (1..Len(w)) \X Aux(m)
        St(n) == Extend(w[n[1]], n[2])
        Edge(n, k) == k[1] = After(n[1], w, l) /\ AllB(x.safety, St(n), St(k))
        Suc == TLCEval([n \in Nodes |-> {k \in Nodes : Edge(n, k)}])
        Goal == TLCEval([j \in 1..(Len(x.prog) + 1) |->
                    {n \in Nodes : j > Len(x.prog) \/ EvalB(x.prog[j], St(n), St(n))}])
        Pre(Z) == {n \in Nodes : Suc[n] \cap Z # {}}
        RECURSIVE Reach(_, _)
        Reach(Y, T) == LET Y1 == T \cup Pre(Y) IN IF Y1 = Y THEN Y ELSE Reach(Y1, T)
        RECURSIVE Live(_)
        Live(Z) == LET PZ == TLCEval(Pre(Z))
                       Z1 == {n \in Z : \A j \in DOMAIN Goal : n \in Reach({}, Goal[j] \cap PZ)}
                   IN IF Z1 = Z THEN Z ELSE Live(TLCEval(Z1))
        Z == Live(Nodes)
    IN \E a \in Aux(m) : <<1, a>> \in Z /\ AllB(x.init, St(<<1, a>>), St(<<1, a>>))

\* ---- the reductions, with auxiliary variable number v
A(v) == [op |-> "var", v |-> v]
No(f) == Op1("not", f)
X(f) == Op1("next", f)
Imp(f, g) == Op2("imp", f, g)
And(f, g) == Op2("and", f, g)
Source(kind, p, q) ==
    CASE kind = "stability" -> Op1("eventually", Op1("always", p))
      [] kind = "response" -> Op1("always", Imp(p, Op1("eventually", q)))
      [] kind = "eventually" -> Op1("eventually", p)
      [] kind = "until" -> Op2("until", p, q)
Reduced(kind, p, q, v) ==
    CASE kind = "stability" -> [init |-> <<No(A(v))>>, safety |-> <<Imp(A(v), p), Imp(A(v), X(A(v)))>>, prog |-> <<A(v)>>]
      [] kind = "response" -> [init |-> << >>, safety |-> <<Imp(And(p, No(q)), X(No(A(v)))), Imp(And(No(A(v)), No(q)), X(No(A(v))))>>, prog |-> <<A(v)>>]
      [] kind = "eventually" -> [init |-> <<No(A(v))>>, safety |-> <<Imp(And(No(p), No(A(v))), X(No(A(v)))), Imp(A(v), X(A(v)))>>, prog |-> <<A(v)>>]
      [] kind = "until" -> [init |-> <<Imp(No(q), No(A(v)))>>,
                            safety |-> <<Imp(q, A(v)), Imp(And(X(No(q)), No(A(v))), X(No(A(v)))), Imp(A(v), X(A(v))), Imp(No(A(v)), p)>>,
                            prog |-> <<A(v)>>]
Same(f, x, m, V, n) == \A w \in Words(V, n), l \in 1..n : Sat(f, w, l) = HasRun(x, m, w, l)
====
