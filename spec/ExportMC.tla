------------------------------ MODULE ExportMC -------------------------------
(* Runs of the program of a graph (an interpreter of the fragment of Promela *)
(* that is used), next to the graph: the program visits the states of the    *)
(* graph, with their labels.                                                 *)
EXTENDS Export, Json
CONSTANTS N, Labels
VARIABLES g, at, val, todo, cur
vars == <<g, at, val, todo, cur>>
Names == <<"u", "v", "w">>
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Graphs == UNION {
    {[n |-> n, names |-> SubSeq(Names, 1, n), lab |-> lab, init |-> init, acc |-> {}, props |-> {"p"}, edges |-> Seqs(e)] :
        lab \in [1..n -> SUBSET {"p"}], init \in SUBSET (1..n) \ {{}},
        e \in SUBSET [u : 1..n, v : 1..n, act : {""}, lbl : Labels]} : n \in 1..N}
P == Program(g)
\* at: name of block ("start" before any), todo: rest of the chosen option, cur: state of the graph
Init == g \in Graphs /\ at = "start" /\ val = {} /\ todo = [do |-> <<>>, goto |-> ""] /\ cur = 0
Choose == /\ todo.goto = ""
          /\ IF at = "start" THEN \E k \in DOMAIN P.start : todo' = P.start[k]
             ELSE \E b \in DOMAIN P.blocks : P.blocks[b].name = at /\ \E k \in DOMAIN P.blocks[b].opts : todo' = P.blocks[b].opts[k]
          /\ UNCHANGED <<g, at, val, cur>>
Stmt == /\ todo.do # <<>>
        /\ val' = Run(<<Head(todo.do)>>, 1, val)
        /\ todo' = [todo EXCEPT !.do = Tail(@)]
        /\ UNCHANGED <<g, at, cur>>
Goto == /\ todo.goto # "" /\ todo.do = <<>>
        /\ at' = todo.goto
        /\ cur' = CHOOSE s \in 1..g.n : Label(g, s) = todo.goto
        /\ todo' = [do |-> <<>>, goto |-> ""]
        /\ UNCHANGED <<g, val>>
Next == Choose \/ Stmt \/ Goto
IsProgram == at = "start" => IsProgramOf(g, P)
AtState == todo.goto = "" /\ cur # 0 => val = g.lab[cur]
\* steps of the program are steps of the graph
Refines == [][cur' # cur \/ Goto =>
    \/ cur = 0 /\ cur' \in g.init
    \/ \E k \in DOMAIN g.edges : g.edges[k].u = cur /\ g.edges[k].v = cur']_vars
\* a graph with one more edge is not described by the document
Other(h) == [h EXCEPT !.edges = Append(@, [u |-> 1, v |-> 1, act |-> "", lbl |-> "a"])]
Distinct == at = "start" =>
    /\ Describes(g, g, {"names", "init", "acc", "acts", "props"})
    /\ Describes(g, g, {"init"})
    /\ ~ Describes(g, Other(g), {"names"})
    /\ ~ Describes(g, Other(g), {})
    /\ ~ IsProgramOf(Other(g), P)
Never == FALSE /\ UNCHANGED vars
Emit == PrintT("@@" \o ToJson(g))
==============================================================================
