----------------------------- MODULE LoaderTrace -----------------------------
(* Automata that the code loaded, checked against Loader.                    *)
EXTENDS Loader, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
If(c, name) == IF c THEN {} ELSE {name}
SetOf(q) == Range(q)
Pairs(q) == {<<x[1], x[2]>> : x \in Range(q)}
StrategyVerdict(r) ==
    LET s == Strategy(r.d)
        g == r.got IN
    If({<<x.id, Pairs(x.vals), x.note>> : x \in Range(g.nodes)} = s.nodes /\ Len(g.nodes) = Cardinality(s.nodes), "nodes")
    \cup If(Pairs(g.edges) = s.edges, "edges")
    \cup If(~ r.shows_init \/ SetOf(g.init) = s.init, "initial nodes")
    \cup If(Pairs(g.vars) = s.vars, "variables")
BitVerdict(r) ==
    LET s == BitStrategy(r.d)
        g == r.got IN
    If({<<x.id, Pairs(x.vals)>> : x \in Range(g.nodes)} = s.nodes, "nodes")
    \cup If(Pairs(g.edges) = s.edges, "edges")
ClaimVerdict(r) ==
    LET s == Claim(r.d)
        g == r.got IN
    If(SetOf(g.nodes) = s.nodes, "nodes")
    \cup If(SetOf(g.init) = s.init, "initial nodes")
    \cup If(SetOf(g.acc) = s.acc, "accepting nodes")
    \cup If(SetOf(g.props) = s.props, "symbols")
    \cup If({<<x[1], {SetOf(v) : v \in Range(x[2])}, x[3]>> : x \in Range(g.edges)} = s.edges, "guarded edges")
\* states of the machine are named by position in the order given by r.got.names
MooreVerdict(r) ==
    LET s == Moore(r.d)
        g == r.got
        n == Len(g.nodes)
        names == {x.name : x \in Range(r.d.sys)}
        fs == {f \in [1..n -> names] : Cardinality({f[k] : k \in 1..n}) = n} IN
    IF n # Cardinality(names) THEN {"nodes"} ELSE
    If(\E f \in fs :
        /\ {<<f[k], Pairs(g.nodes[k])>> : k \in 1..n} = s.nodes
        /\ {f[k] : k \in SetOf(g.init)} = s.init
        /\ {<<f[x[1]], Pairs(x[2]), f[x[3]]>> : x \in Range(g.edges)} = s.edges, "machine")
SessionVerdict(r) ==
    If(r.got.lines = AllSent(r.env, r.sys, r.cmds, 1), "commands")
    \cup If(\A k \in DOMAIN r.cmds :
            LET a == r.got.answers[k] IN
            IF r.cmds[k].op \in {"envnext", "sysnext", "sysnexta"}
            THEN [j \in DOMAIN a |-> Pairs(a[j])] = Answer(r.env, r.sys, r.cmds[k], r.replies[k])
            ELSE a = r.replies[k], "answers")
Verdict(r) ==
    IF r.fail # "" THEN {r.fail}
    ELSE CASE r.what \in {"json", "xml"} -> StrategyVerdict(r)
           [] r.what = "slugs" -> BitVerdict(r)
           [] r.what = "ltl2ba" -> ClaimVerdict(r)
           [] r.what = "lily" -> MooreVerdict(r)
           [] r.what = "session" -> SessionVerdict(r)
           [] r.what = "verdict" -> If(r.got = r.d, "realizability")
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
