---- MODULE GR1Trace ----
(* Verdicts on recorded syntheses: r.spec is the specification; r.runs is a sequence of         *)
(* [kind |-> "real"|"synth"|"exc", solver, rmdead, ans (BOOLEAN), mach].                          *)
EXTENDS GR1, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)

\* Environments that can be unable to move, or cannot start, satisfy a specification vacuously.  The
\* strategy enumeration in package `omega` asserts against such strategies, `remove_deadends` rejects
\* machines that lose all their nodes, and `gr1py` is wrong on such arenas; none of these is TuLiP's
\* game solution, so a refusal (exception) to construct a machine is not judged for them.
EnvBlocked(G) == \E s \in 1..G.n : G.ea[s] = {}
Vacuous(G) == EnvBlocked(G) \/ (G.qinit # "EE" /\ G.ei = {})

\* which nodes of a strategy are initial is not given by `gr1c`: each node that satisfies
\* the initial conditions can be, and the machine has an initial transition to one of each valuation
Free(r) == IF r.solver = "gr1c" THEN {"init-nondeterministic"} ELSE {}

RunVerdict(g, G, real, r) ==
    CASE r.solver = "gr1py" /\ EnvBlocked(G) -> {}
      [] r.kind = "exc_real" -> {"C02:exception"}
      [] r.kind = "exc_synth" -> IF Vacuous(G) /\ real THEN {} ELSE {"C02:exception"}
      [] r.kind = "real" -> IF r.ans # real THEN {"C02:realizable"} ELSE {}
      [] r.kind = "none" -> IF real THEN {"C02:synthesis-refused"} ELSE {}
      [] r.kind = "synth" ->
            (IF ~ real THEN {"C02:controller-for-unrealizable"} ELSE {})
            \cup {"C01:" \o b : b \in ControllerVerdict(g, G, r.mach, r.rmdead) \ Free(r)}

Verdict(r) ==
    LET G == TLCEval(Arena(r.spec))
        W == Win(G)
        real == Realizable(G, W)
    IN UNION {{<<k, v>> : v \in RunVerdict(r.spec, G, real, r.runs[k])} : k \in 1..Len(r.runs)}

Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> {b[2] \o ":" \o Recs[i].runs[b[1]].solver : b \in bad}]))
====
