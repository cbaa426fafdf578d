------------------------------- MODULE Export --------------------------------
(* Documents that describe graphs.                                           *)
(* A graph: g.n states 1..n, g.names[s], g.lab[s] (set of strings), g.init,  *)
(* g.acc (sets of states), g.props, and g.edges, a sequence of records       *)
(* [u, v, act, lbl]: parallel edges are distinct.                            *)
(* A document is a graph too, whose states are the nodes of the text in the  *)
(* order they appear.  A Promela document is a program (below).              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Perms(n) == {f \in [1..n -> 1..n] : Cardinality({f[k] : k \in 1..n}) = n}
\* bijections between states, and nodes of the text
Matches(g, d, named) ==
    IF g.n # d.n THEN {}
    ELSE IF ~ named THEN Perms(g.n)
    ELSE IF {d.names[k] : k \in 1..d.n} # {g.names[k] : k \in 1..g.n} \/ Cardinality({g.names[k] : k \in 1..g.n}) # g.n THEN {}
    ELSE {[s \in 1..g.n |-> CHOOSE k \in 1..d.n : d.names[k] = g.names[s]]}
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in {a[k] : k \in DOMAIN a} :
          Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
Acts(g) == {g.edges[k].act : k \in DOMAIN g.edges}
\* renamings of actions
Renamings(g, d, renamed) ==
    IF ~ renamed THEN {[a \in Acts(g) |-> a]}
    ELSE {h \in [Acts(g) -> Acts(d)] : Cardinality({h[a] : a \in Acts(g)}) = Cardinality(Acts(g))}
\* what the format shows: a subset of {"names", "init", "acc", "acts", "props"}
Describes(g, d, shows) ==
    \E f \in Matches(g, d, "names" \in shows) :
        /\ "init" \in shows => {f[s] : s \in g.init} = d.init
        /\ "acc" \in shows => {f[s] : s \in g.acc} = d.acc
        /\ "props" \in shows => g.props = d.props
        /\ \A s \in 1..g.n : g.lab[s] = d.lab[f[s]]
        /\ \E h \in Renamings(g, d, ~ ("acts" \in shows)) :
              SameBag([k \in DOMAIN g.edges |-> [g.edges[k] EXCEPT !.u = f[@], !.v = f[@], !.act = h[@]]], d.edges)

-------------------------------------------------------------------------------
(* Promela: p.vars, p.start (options), p.blocks[k] = [name, opts].  An option *)
(* is [do, goto], where do is a sequence of <<"set", x, value>>,             *)
(* <<"edge", label>>, <<"state", name>> statements.                          *)
RECURSIVE Run(_, _, _)
Run(do, k, val) ==
    IF k > Len(do) THEN val
    ELSE Run(do, k + 1,
        IF do[k][1] # "set" THEN val
        ELSE IF do[k][3] = "1" THEN val \cup {do[k][2]} ELSE val \ {do[k][2]})
Said(do, kind) == {do[k][2] : k \in {j \in DOMAIN do : do[j][1] = kind}}
\* starting with the propositions in val, the option arrives at state s with the label of s
Arrives(g, p, f, o, val, s) ==
    /\ o.goto = p.blocks[f[s]].name
    /\ Said(o.do, "state") \subseteq {g.names[s]}
    /\ Run(o.do, 1, val) = g.lab[s]
Target(g, p, f, o, val) == {s \in 1..g.n : Arrives(g, p, f, o, val, s)}
OutEdges(g, s) == SelectSeq(g.edges, LAMBDA e : e.u = s)
IsProgramOf(g, p) ==
    /\ p.vars = g.props
    /\ Len(p.blocks) = g.n
    /\ Cardinality({p.blocks[k].name : k \in DOMAIN p.blocks}) = g.n
    /\ \E f \in Perms(g.n) :
        /\ \A j \in DOMAIN p.start : Target(g, p, f, p.start[j], {}) # {}
        /\ UNION {Target(g, p, f, p.start[j], {}) : j \in DOMAIN p.start} = g.init
        /\ \A s \in 1..g.n :
            LET o == p.blocks[f[s]].opts IN
            /\ \A j \in DOMAIN o : Target(g, p, f, o[j], g.lab[s]) # {} /\ Cardinality(Said(o[j].do, "edge")) = 1
            /\ LET e == OutEdges(g, s) IN
               SameBag([k \in DOMAIN e |-> <<e[k].lbl, e[k].v>>],
                       [j \in DOMAIN o |-> <<CHOOSE x \in Said(o[j].do, "edge") : TRUE, CHOOSE x \in Target(g, p, f, o[j], g.lab[s]) : TRUE>>])

\* a program for the graph g
Sets(g, s) == LET q == CHOOSE q \in [1..Cardinality(g.props) -> g.props] : {q[k] : k \in DOMAIN q} = g.props
              IN [k \in DOMAIN q |-> <<"set", q[k], IF q[k] \in g.lab[s] THEN "1" ELSE "0">>]
Label(g, s) == "state_" \o g.names[s]
Arrive(g, s) == Sets(g, s) \o << <<"state", g.names[s]>> >>
Order(S) == CHOOSE q \in [1..Cardinality(S) -> S] : {q[k] : k \in DOMAIN q} = S
Program(g) ==
    [vars |-> g.props,
     start |-> [k \in 1..Cardinality(g.init) |-> LET s == Order(g.init)[k] IN [do |-> Arrive(g, s), goto |-> Label(g, s)]],
     blocks |-> [s \in 1..g.n |->
        [name |-> Label(g, s),
         opts |-> LET e == OutEdges(g, s) IN
            [k \in DOMAIN e |-> [do |-> << <<"edge", e[k].lbl>> >> \o Arrive(g, e[k].v), goto |-> Label(g, e[k].v)]]]]]

-------------------------------------------------------------------------------
(* Model checking of a Markov model by a tool that numbers states, and       *)
(* identifies states by their labels.                                        *)
Distribution(g, s, a) ==
    {<<g.edges[k].v, g.edges[k].lbl>> : k \in {j \in DOMAIN g.edges : g.edges[j].u = s /\ g.edges[j].act = a}}
==============================================================================
