------------------------------- MODULE TSGame -------------------------------
(* Games played on transition systems.                                      *)
(* A transition system ts describes how its owner moves a token; its labels *)
(* are actions of both players.  It constrains valuations of variables:     *)
(*   loc     number of the variable that stores the state (0: Booleans)     *)
(*   sv      value of that variable, for each state                         *)
(*   bl      numbers of Boolean variables, for each state (if loc = 0)      *)
(*   aps     numbers of the variables that represent propositions           *)
(*   lab     for each state, the set (sequence) of variables that are true  *)
(*   init    initial states;  ignore: whether these are ignored             *)
(*   acts    types of actions: [own, must, var, vals, bl]                   *)
(*   edges   [a, b, act], act: number of the value for each type, 0: any    *)
EXTENDS GR1

Elems(s) == {s[k]: k \in 1..Len(s)}
NStates(ts) == Len(ts.sv)
At(ts, v, k) == IF ts.loc # 0 THEN v[ts.loc] = ts.sv[k]
    ELSE \A j \in 1..Len(ts.bl): v[ts.bl[j]] = (IF j = k THEN 1 ELSE 0)
Somewhere(ts, v) == \E k \in 1..NStates(ts): At(ts, v, k)
Labeled(ts, v) == \A k \in 1..NStates(ts): At(ts, v, k) =>
    \A j \in 1..Len(ts.aps):
        v[ts.aps[j]] = (IF ts.aps[j] \in Elems(ts.lab[k]) THEN 1 ELSE 0)
NActs(a) == IF a.var # 0 THEN Len(a.vals) ELSE Len(a.bl)
ActIs(a, v, k) == IF a.var # 0 THEN v[a.var] = a.vals[k] ELSE v[a.bl[k]] = 1
Taken(a, v) == {k \in 1..NActs(a): ActIs(a, v, k)}
ActOk(a, v) ==
    CASE NActs(a) = 0 -> TRUE
      [] a.must = "xor" -> Cardinality(Taken(a, v)) = 1
      [] a.must = "mutex" -> Cardinality(Taken(a, v)) <= 1
      [] OTHER -> TRUE
ActsOk(ts, own, v) == \A t \in 1..Len(ts.acts): ts.acts[t].own = own => ActOk(ts.acts[t], v)
Types(ts, own) == {t \in 1..Len(ts.acts): ts.acts[t].own = own /\ NActs(ts.acts[t]) > 0}
Matches(ts, e, own, v) == \A t \in Types(ts, own):
    e.act[t] # 0 => ActIs(ts.acts[t], v, e.act[t])
Free(ts, e, own) == \A t \in Types(ts, own): e.act[t] = 0
OutOf(ts, v) == {e \in Elems(ts.edges): At(ts, v, e.a)}

Proper(ts, v) == Somewhere(ts, v) /\ Labeled(ts, v)
OwnerInit(ts, v) == Proper(ts, v) /\ ActsOk(ts, ts.owner, v)
    /\ (ts.ignore \/ \E k \in Elems(ts.init): At(ts, v, k))
OwnerMove(ts, v, w) == Proper(ts, w) /\ ActsOk(ts, ts.owner, w)
    /\ IF ts.owner = "sys"
       THEN \E e \in OutOf(ts, v): At(ts, w, e.b)
                /\ Matches(ts, e, "sys", w) /\ Matches(ts, e, "env", w)
       ELSE \/ \E e \in OutOf(ts, v): At(ts, w, e.b)
                /\ Matches(ts, e, "env", w) /\ Matches(ts, e, "sys", v)
            \* the system cannot block the environment by taking no action
            \/ /\ OutOf(ts, v) # {}
               /\ ~ \E e \in OutOf(ts, v): Free(ts, e, "sys")
               /\ \E t \in Types(ts, "sys"): Taken(ts.acts[t], v) = {}
Other(own) == IF own = "sys" THEN "env" ELSE "sys"
OtherInit(ts, v) == ActsOk(ts, Other(ts.owner), v)
(* The environment of a system takes actions for which the system has     *)
(* transitions, unless some transition is independent of these actions.   *)
OtherMove(ts, v, w) == ActsOk(ts, Other(ts.owner), w)
    /\ (ts.owner = "env" \/ OutOf(ts, v) = {}
        \/ \E e \in OutOf(ts, v): Matches(ts, e, "env", w))

InitOf(ts, own, v) == IF own = ts.owner THEN OwnerInit(ts, v) ELSE OtherInit(ts, v)
MoveOf(ts, own, v, w) == IF own = ts.owner THEN OwnerMove(ts, v, w) ELSE OtherMove(ts, v, w)

(* The game of the specification g, constrained by the systems. *)
Constrain(G, systems) ==
    LET S == Elems(systems)
        I(own) == TLCEval({k \in 1..G.n: \A ts \in S: InitOf(ts, own, G.vals[k])})
        M(own) == TLCEval([k \in 1..G.n |-> TLCEval({m \in 1..G.n:
            \A ts \in S: MoveOf(ts, own, G.vals[k], G.vals[m])})])
        both(f, h) == [k \in 1..G.n |-> f[k] \cap h[k]]
        ei == I("env")  si == I("sys")
    IN [G EXCEPT
        !.ei = @ \cap ei \cap (IF G.qinit = "AA" THEN si ELSE 1..G.n),
        !.si = @ \cap (IF G.qinit = "AA" THEN 1..G.n ELSE si),
        !.ea = both(@, M("env")), !.sa = both(@, M("sys"))]

(* Valuations from which both players can keep moving. *)
RECURSIVE Alive(_, _)
Alive(G, X) == LET Y == {s \in X: (G.ea[s] \cap G.sa[s]) \cap X # {}}
    IN IF Y = X THEN X ELSE Alive(G, Y)
=============================================================================
