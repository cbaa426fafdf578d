-------------------------------- MODULE TSMC --------------------------------
(* All systems of two states over one proposition and one type of actions:  *)
(* the runs of the game on a system, where both players obey their parts,   *)
(* are exactly the paths of the system with labels.  Systems are emitted    *)
(* for replay in the code.                                                  *)
EXTENDS TSGame, Json
CONSTANTS Length, Emitting
VARIABLES ts, runs, paths, k

\* variables: 1 loc (0..1), 2 ap, 3 action (0..1, and 2 if mutex: no action)
Vars(must) == <<[own |-> "env", lo |-> 0, hi |-> 1], [own |-> "env", lo |-> 0, hi |-> 1],
    [own |-> "env", lo |-> 0, hi |-> IF must = "xor" THEN 1 ELSE 2]>>
Vals(t) == {ValOf(Vars(t.acts[1].must), n):
    n \in 0..(Prod(Vars(t.acts[1].must), 1, 3) - 1)}
Labels == {-1, 0, 1, 2}  \* -1: no edge
PairsOf == <<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>
RECURSIVE EdgesFrom(_, _)
EdgesFrom(f, j) == IF j > 4 THEN <<>> ELSE
    (IF f[j] = -1 THEN <<>> ELSE <<[a |-> PairsOf[j][1], b |-> PairsOf[j][2], act |-> <<f[j]>>]>>)
    \o EdgesFrom(f, j + 1)
System(f, lab, init, owner, aown, must) ==
    [owner |-> owner, loc |-> 1, sv |-> <<0, 1>>, bl |-> <<>>, aps |-> <<2>>, lab |-> lab,
     init |-> init, ignore |-> FALSE, edges |-> EdgesFrom(f, 1),
     acts |-> <<[own |-> aown, must |-> must, var |-> 3, vals |-> <<0, 1>>, bl |-> <<>>]>>]

Joint(t, v, w) == MoveOf(t, "env", v, w) /\ MoveOf(t, "sys", v, w)
\* where the system takes no action, an environment that waits for one moves freely
Stuck(t, v) == t.owner = "env" /\ OutOf(t, v) # {}
    /\ ~ (\E e \in OutOf(t, v): Free(t, e, "sys"))
    /\ \E x \in Types(t, "sys"): Taken(t.acts[x], v) = {}
\* what is seen of a valuation: state, proposition, action
Seen(v) == v
\* the paths of the system, step by step
PathInit(t) == {v \in Vals(t): (\E s \in Elems(t.init): v[1] = t.sv[s]
    /\ v[2] = (IF 2 \in Elems(t.lab[s]) THEN 1 ELSE 0))}
PathStep(t, v) == {w \in Vals(t): \E j \in 1..Len(t.edges): LET e == t.edges[j] IN
    /\ v[1] = t.sv[e.a] /\ w[1] = t.sv[e.b]
    /\ w[2] = (IF 2 \in Elems(t.lab[e.b]) THEN 1 ELSE 0)
    /\ e.act[1] # 0 =>
        (IF t.owner = "env" /\ t.acts[1].own = "sys" THEN v ELSE w)[3] = t.acts[1].vals[e.act[1]]}

Init == /\ runs = {} /\ paths = {} /\ k = 0
    /\ ts \in {<<owner, aown, must, a, b>>: owner \in {"sys", "env"}, aown \in {"sys", "env"},
        must \in {"xor", "mutex"}, a \in Labels, b \in Labels}
Pick == /\ k = 0 /\ k' = 1
    /\ \E c, d \in Labels, lab \in {<<<<>>, <<2>>>>, <<<<2>>, <<2>>>>}, init \in {<<1>>, <<2>>, <<1, 2>>}:
        ts' = System(<<ts[4], ts[5], c, d>>, lab, init, ts[1], ts[2], ts[3])
    /\ runs' = {<<v>>: v \in {x \in Vals(ts'): OwnerInit(ts', x) /\ OtherInit(ts', x)}}
    /\ paths' = {<<v>>: v \in {x \in PathInit(ts'): TRUE}}
Extend(R, succ(_)) == UNION {{Append(r, w): w \in succ(r[Len(r)])}: r \in R}
Grow == /\ ~ Emitting /\ k > 0 /\ k < Length /\ k' = k + 1 /\ UNCHANGED ts
    /\ runs' = Extend(runs, LAMBDA v: IF Stuck(ts, v) THEN {} ELSE {w \in Vals(ts): Joint(ts, v, w)})
    /\ paths' = Extend(paths, LAMBDA v: IF Stuck(ts, v) THEN {} ELSE PathStep(ts, v))
Next == Pick \/ Grow
RunsArePaths == k > 0 => runs = paths
Emit == (Emitting /\ k = 1) => PrintT("@@" \o ToJson(
    [owner |-> ts.owner, aown |-> ts.acts[1].own, must |-> ts.acts[1].must,
     lab |-> ts.lab, init |-> ts.init, edges |-> ts.edges]))
=============================================================================
