---- MODULE MachineTrace ----
(* Reactions, runs, and conversions of machines by the code, and runs of programs that it writes.   *)
EXTENDS Machine, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
\* valuations are given as pairs
Fn(s) == [k \in {s[j][1] : j \in DOMAIN s} |-> s[CHOOSE j \in DOMAIN s : s[j][1] = k][2]]
Fns(s) == [k \in DOMAIN s |-> Fn(s[k])]
E(e) == [u |-> e.u, i |-> Fn(e.i), o |-> Fn(e.o), v |-> e.v]
M(m) == [states |-> Range(m.states), init |-> Range(m.init), ins |-> Range(m.ins), outs |-> Range(m.outs), edges |-> {E(e) : e \in Range(m.edges)}]
Mo(m) == [states |-> Range(m.states), init |-> Range(m.init), ins |-> Range(m.ins), outs |-> Range(m.outs),
          edges |-> {[u |-> e.u, i |-> Fn(e.i), v |-> e.v] : e \in Range(m.edges)},
          out |-> [s \in Range(m.states) |-> Fn(m.out[CHOOSE k \in DOMAIN m.states : m.states[k] = s])]]
Once(s) == Cardinality(Range(s)) = Len(s)
\* ---- C15
Op(x, m, op) ==
    LET g == op.got
        want == CASE op.t = "react" -> Reaction(m, op.u, Fn(op["in"]), Range(op.ports), op.lazy)
                  [] op.t = "run" -> IF op.malformed THEN Err ELSE Run(m, op.u, Fns(op.ins))
                  [] OTHER -> Err
    IN CASE op.t = "react" -> IF g.ok # want.ok THEN {IF g.ok THEN "not-rejected" ELSE "rejected"}
                              ELSE IF ~ g.ok THEN {} ELSE (IF g.v = want.v THEN {} ELSE {"next-state"}) \cup (IF Fn(g.o) = want.o THEN {} ELSE {"outputs"})
         [] op.t = "run" -> IF g.ok # want.ok THEN {IF g.ok THEN "run-not-rejected" ELSE "run-rejected"}
                            ELSE IF ~ g.ok THEN {} ELSE (IF g.vs = want.vs THEN {} ELSE {"run-states"}) \cup (IF Fns(g.os) = want.os THEN {} ELSE {"run-outputs"})
         [] op.t = "random" -> IF ~ g.ok THEN IF \E s \in ReachM(m, {op.u}, op.n) : Deadend(m, s) THEN {} ELSE {"random-raised"}
                               ELSE IF Len(g.vs) = op.n /\ IsPath(m, op.u, g.vs, Fns(g.os)) THEN {} ELSE {"random-path"}
         \* the states shown, for choices of transitions: from each state, the code shows what can be chosen
         [] op.t = "interactive" -> IF ~ g.ok THEN {"interactive-raised"}
                                    ELSE IF \A k \in DOMAIN g.moves : /\ g.moves[k].u = (IF k = 1 THEN op.u ELSE g.moves[k - 1].v)
                                                                       /\ E(g.moves[k]) \in m.edges
                                         THEN IF Len(g.moves) = op.n \/ (Len(g.moves) < op.n /\ Deadend(m, IF g.moves = << >> THEN op.u ELSE g.moves[Len(g.moves)].v))
                                              THEN {} ELSE {"interactive-length"}
                                         ELSE {"interactive-path"}
Whole(g, w) ==
    (IF g.states = w.states THEN {} ELSE {"states"}) \cup (IF g.init = w.init THEN {} ELSE {"initial"})
    \cup (IF g.ins = w.ins THEN {} ELSE {"inputs"}) \cup (IF g.outs = w.outs THEN {} ELSE {"outputs"})
    \cup (IF g.edges = w.edges THEN {} ELSE {"transitions"})
Ports(g, m) == (IF g.ins = m.ins THEN {} ELSE {"inputs"}) \cup (IF g.outs = m.outs THEN {} ELSE {"outputs"})
Conv(x, m) ==
    CASE x.conv.t = "none" -> {}
      [] ~ x.conv.ok -> {x.conv.t \o "-raised"}
      [] x.conv.t = "moore2mealy" -> LET g == M(x.conv.m)
                                         p == Mo(x.moore)
                                     IN Ports(g, p) \cup (IF SameBehaviour(MealyLts(g), g.init, g.states, MooreNow(p), p.init, p.states) THEN {} ELSE {"moore2mealy"})
      [] x.conv.t = "mealy2moore" -> LET g == Mo(x.conv.m)
                                     IN Ports(g, m) \cup (IF SameBehaviour(MooreNext(g), g.init, g.states, MealyLts(m), m.init, m.states) THEN {} ELSE {"mealy2moore"})
                                        \cup (IF \A s \in g.init : \A k \in g.outs : g.out[s][k] \in Range(Fn(x.domains)[k]) THEN {} ELSE {"mealy2moore-first-output"})
      [] x.conv.t = "strip" -> {"strip-" \o b : b \in Whole(M(x.conv.m), Strip(m, Range(x.names)))}
      [] x.conv.t = "mask" -> {"mask-" \o b : b \in Whole(M(x.conv.m), Mask(m, "i0"))}
      [] x.conv.t = "det" -> IF IsDeterminized(M(x.conv.m), m, x.sinit, Fn(x.given), DOMAIN Fn(x.given)) /\ Once(x.conv.m.edges) THEN {} ELSE {"determinize"}
VerdictM(x) ==
    LET m == TLCEval(M(x.m))
    IN UNION {Op(x, m, x.ops[k]) : k \in DOMAIN x.ops} \cup Conv(x, m) \cup (IF x.kept THEN {} ELSE {"operand-changed"})
\* ---- C16: the program starts at node x.start; its moves
RECURSIVE Prog(_, _, _, _, _)
\* B: nodes where the machine may be; T: <<integer, node>> pairs seen
Prog(x, m, k, B, T) ==
    IF k > Len(x.moves) THEN {}
    ELSE LET mv == x.moves[k]
             \* a machine without inputs takes any transition
             En == UNION {Enabled(m, u, Fn(mv["in"]), m.ins) : u \in B}
             S == {e.v : e \in {f \in En : mv.got.ok /\ f.o = Fn(mv.got.o)}}
             T1 == T \cup {<<mv.st, v>> : v \in S}
         IN IF ~ mv.got.ok
            THEN LET R == {u \in B : Enabled(m, u, Fn(mv["in"]), m.ins) = {}}
                 IN IF R = {} THEN {"rejected"}
                    ELSE IF mv.st # mv.before THEN {"moved-when-rejected"} ELSE Prog(x, m, k + 1, R, T)
            ELSE IF En = {} THEN {"not-rejected"}
            ELSE IF S = {} THEN {"outputs"}
            ELSE IF x.deterministic /\ (\E p, q \in T1 : (p[1] = q[1]) # (p[2] = q[2])) THEN {"state"}
            ELSE Prog(x, m, k + 1, S, T1)
VerdictP(x) ==
    LET m == TLCEval(M(x.m))
    IN IF ~ x.compiled THEN {"compile"}
       ELSE Prog(x, m, 1, {x.start}, {<<x.first, x.start>>})
            \cup (IF Range(x.inputvars) = m.ins /\ Len(x.inputvars) = Cardinality(m.ins) THEN {} ELSE {"input-vars"})
            \cup (IF x.kept THEN {} ELSE {"operand-changed"})
Init == i \in 1..Len(Recs) /\ bad = (IF Recs[i].what = "machine" THEN VerdictM(Recs[i]) ELSE VerdictP(Recs[i]))
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
