------------------------------- MODULE TSTrace -------------------------------
(* Specifications that encode transition systems, and controllers for games *)
(* with transition systems, checked against TSGame.                         *)
EXTENDS TSGame, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)

If(c, name) == IF c THEN {} ELSE {name}
Plain(vars) == [vars |-> vars, ei |-> <<>>, si |-> <<>>, es |-> <<>>, ss |-> <<>>,
    ep |-> <<>>, sp |-> <<>>, moore |-> FALSE, plus_one |-> FALSE, qinit |-> "AE"]

(* r.spec: the encoding of r.systems[1] as formulas *)
Encoding(r) ==
    IF r.exc # "" THEN {"exception"} ELSE
    IF ~ r.sameVars THEN {"variables"} ELSE
    LET ts == r.systems[1]
        C == TLCEval(Arena(r.spec))
        T == TLCEval(Constrain(Arena(Plain(r.spec.vars)), r.systems))
        proper == {s \in 1..C.n: Proper(ts, C.vals[s])
            /\ ActsOk(ts, "env", C.vals[s]) /\ ActsOk(ts, "sys", C.vals[s])}
    IN If(r.spec.ep = <<>> /\ r.spec.sp = <<>>, "progress")
       \union If(C.ei = T.ei, "env_init") \union If(C.si = T.si, "sys_init")
       \union If(\A s \in proper: C.ea[s] = T.ea[s], "env_safety")
       \union If(\A s \in proper: C.sa[s] = T.sa[s], "sys_safety")

EnvBlocked(G) == \E s \in 1..G.n : G.ea[s] = {}
Vacuous(G) == EnvBlocked(G) \/ (G.qinit # "EE" /\ G.ei = {})
RunVerdict(g, G, real, r) ==
    CASE r.solver = "gr1py" /\ EnvBlocked(G) -> {}
      [] r.kind = "exc_real" -> {"exception"}
      [] r.kind = "exc_synth" -> IF Vacuous(G) /\ real THEN {} ELSE {"exception"}
      [] r.kind = "real" -> If(r.ans = real, "realizable")
      [] r.kind = "none" -> If(~ real, "synthesis refused")
      [] r.kind = "synth" ->
            If(real, "controller for unrealizable")
            \union {"controller " \o b : b \in ControllerVerdict(g, G, r.mach, r.rmdead)}
Synthesis(r) ==
    LET G == TLCEval(Constrain(Arena(r.spec), r.systems))
        real == Realizable(G, Win(G))
    IN UNION {RunVerdict(r.spec, G, real, r.runs[k]): k \in 1..Len(r.runs)}

(* substitutions of propositions by formulas about the state variable *)
Dependent(r) ==
    LET ts == r.systems[1]
        N == Len(r.spec.vars)
        vals == {ValOf(r.spec.vars, k - 1): k \in 1..Prod(r.spec.vars, 1, N)}
    IN IF r.exc # "" THEN {"exception"} ELSE
       If(r.sameVars, "propositions") \union
       If(\A v \in vals: Somewhere(ts, v) =>
            (Labeled(ts, v) <=> \A j \in 1..Len(ts.aps):
                (v[ts.aps[j]] = 1) <=> EvalB(r.table[j], v, v)), "table")

Verdict(r) == CASE r.what = "encoding" -> Encoding(r)
    [] r.what = "synthesis" -> Synthesis(r)
    [] r.what = "dependent" -> Dependent(r)
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
