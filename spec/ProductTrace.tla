---- MODULE ProductTrace ----
(* Products built by the code. *)
EXTENDS Product, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Range(s) == {s[k] : k \in DOMAIN s}
T(x) == [n |-> x.t.n, init |-> Range(x.t.init), ap |-> [s \in 1..x.t.n |-> Range(x.t.ap[s])], edges |-> Range(x.t.edges)]
B(x) == [m |-> x.b.m, init |-> Range(x.b.init), acc |-> Range(x.b.acc), delta |-> {<<d[1], Range(d[2]), d[3]>> : d \in Range(x.b.delta)}]
Once(s) == Cardinality(Range(s)) = Len(s)
Same(o, P) ==
    (IF Range(o.states) = P.states /\ Once(o.states) THEN {} ELSE {"states"})
    \cup (IF Range(o.init) = P.init THEN {} ELSE {"initial"})
    \cup (IF Range(o.acc) = P.acc THEN {} ELSE {"accepting"})
Letters(t, edges) == {<<e[1], e[2], t.ap[e[2][1]]>> : e \in edges}
GotLetters(o) == {<<e[1], e[2], Range(e[3])>> : e \in Range(o.edges)}
JudgeTS(o, t, b, P) ==
    IF ~ o.ok THEN {"raised"}
    ELSE Same(o, P)
         \cup (IF Range(o.edges) = P.edges /\ Once(o.edges) THEN {} ELSE {"transitions"})
         \cup (IF Len(o.ap) = Len(o.states) /\ \A k \in DOMAIN o.ap : o.ap[k] = <<o.states[k][2]>> THEN {} ELSE {"labels"})
JudgeBA(o, t, b, P) ==
    IF ~ o.ok THEN {"raised"}
    ELSE Same(o, P) \cup (IF GotLetters(o) = Letters(t, P.edges) /\ Once(o.edges) THEN {} ELSE {"transitions"})
\* on the fly: each operation expands a pair, the last one all of them
RECURSIVE Fly(_, _, _, _, _, _)
Fly(o, t, b, k, S, E) ==
    IF k > Len(o.ops) THEN {}
    ELSE LET op == o.ops[k]
             got == o.outs[k]
             S1 == IF op = << >> THEN Closure(t, b, S, S) ELSE S \cup SuccP(t, b, op)
             E1 == IF op = << >> THEN UNION {EdgesP(t, b, p) : p \in S1} ELSE E \cup EdgesP(t, b, op)
             P == [states |-> S1, init |-> InitP(t, b), acc |-> {p \in S1 : p[2] \in b.acc}, edges |-> E1]
             j == JudgeBA(got, t, b, P) \cup (IF op # << >> /\ got.ok /\ Range(got.new) # S1 \ S THEN {"new"} ELSE {})
         IN IF j # {} THEN {"fly-" \o x : x \in j} ELSE Fly(o, t, b, k + 1, TLCEval(S1), TLCEval(E1))
Verdict(x) ==
    LET t == T(x)
        b == B(x)
        P == TLCEval(ProductOf(t, b))
    IN {"ts-" \o j : j \in JudgeTS(x.ts, t, b, P)}
       \cup {"ba-" \o j : j \in JudgeBA(x.ba, t, b, P)}
       \cup (IF ~ x.fly.start.ok THEN {"fly-raised"}
             ELSE {"fly-start-" \o j : j \in JudgeBA(x.fly.start, t, b, [P EXCEPT !.states = P.init, !.acc = {p \in P.init : p[2] \in b.acc}, !.edges = {}])}
                  \cup Fly(x.fly, t, b, 1, P.init, {}))
       \cup (IF x.kept THEN {} ELSE {"operands-changed"})
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
