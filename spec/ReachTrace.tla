----------------------------- MODULE ReachTrace ------------------------------
(* Sets that the code computed, checked against Reach.                       *)
EXTENDS Reach, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
If(c, name) == IF c THEN {} ELSE {name}
Volume(b) == FoldLeft(LAMBDA v, k: v * (b[k][2] - b[k][1]), 1, [k \in DOMAIN b |-> k])
\* the pieces that are certainly among the `keep` largest ones
Largest(bs, keep) == SelectSeq(bs, LAMBDA b: Cardinality({k \in DOMAIN bs: bs[k] # b /\ Volume(bs[k]) >= Volume(b)}) < keep)
Solve(r) ==
    LET up == TLCEval(Upper(r.sys, r.q))
        low == TLCEval(Lower(r.sys, IF r.keep = 0 THEN r.q ELSE [r.q EXCEPT !.P1 = Largest(@, r.keep), !.P2 = Largest(@, r.keep)]))
        pts == TLCEval(ToSet(r.points))
        got == TLCEval(ToSet(r.got))
        start == UNION {InsideFaces(r.q.P1[k]): k \in DOMAIN r.q.P1} IN
    If(got \subseteq up, "unsound")
    \cup If(low \cap pts \subseteq got, "incomplete")
    \cup If(r.feasible => start \cap pts \subseteq up, "is_feasible unsound")
    \cup If(~ r.judge \/ r.feasible \/ ~ (start \cap pts \subseteq low), "is_feasible incomplete")
Cell(x) == ToSet(x[1])
Closure(cells) == UNION {Points([k \in DOMAIN c |-> <<c[k] - 2, c[k] + 2>>], 2): c \in cells}
Touch(a, b) == \E x \in a, y \in b: \A k \in DOMAIN x: x[k] - y[k] \in {-4, 0, 4}
Hops(adj, n, k) == \* pairs of regions at most k steps apart
    LET one == {<<a, b>> \in (1..n) \X (1..n): adj[a][b] = 1}
        further(p) == p \cup {<<a, b>> \in (1..n) \X (1..n): \E c \in 1..n: <<a, c>> \in p /\ <<c, b>> \in one} IN
    FoldLeft(LAMBDA p, x: further(p), one, [x \in 1..(k - 1) |-> x])
(* an abstraction: regions, transitions, and maps to original regions        *)
Shape(r, n, cells, dom) ==
    If(UNION {cells[k]: k \in 1..n} = dom, "cover")
    \cup If(r.simu = "dual" \/ \A a, b \in 1..n: a = b \/ cells[a] \cap cells[b] = {}, "overlap")
    \cup If(\A k \in 1..n: cells[k] # {}, "empty region")
    \cup If(\A k \in 1..n: \A x \in cells[k]: {r.props[p][1]: p \in {p \in DOMAIN r.props: InBox(r.props[p][2], x)}} = ToSet(r.regions[k][2]), "propositions")
    \cup If(Len(r.adj) = n /\ \A a \in 1..n: Len(r.adj[a]) = n /\ \A b \in 1..n: (r.adj[a][b] = 1) = (a = b \/ Touch(cells[a], cells[b])), "adjacency")
States(r, n) ==
    If(Len(r.states) = n /\ Len(r.ppp2ts) = n /\ ToSet(r.states) = ToSet(r.ppp2ts) /\ Cardinality(ToSet(r.states)) = n, "states")
    \cup If(Len(r.labels) = n /\ \A k \in DOMAIN r.labels: k <= n => ToSet(r.labels[k]) = ToSet(r.regions[k][2]), "labels")
    \cup If(ToSet(r.ap) = {r.props[p][1]: p \in DOMAIN r.props}, "atomic propositions")
Maps(r, n, cells) ==
    IF Len(r.ppp2pwa) # n \/ Len(r.ppp2orig) # n \/ Len(r.ppp2sys) # n THEN {"maps"} ELSE
    If(\A k \in 1..n: r.ppp2pwa[k] \in DOMAIN r.pwa /\ cells[k] \subseteq ToSet(r.pwa[r.ppp2pwa[k]]), "ppp2pwa")
    \cup If(\A k \in 1..n: r.ppp2orig[k] \in DOMAIN r.orig /\ cells[k] \subseteq ToSet(r.orig[r.ppp2orig[k]]), "ppp2orig")
    \cup If(\A k \in 1..n: r.ppp2sys[k] \in DOMAIN r.sys /\ \A x \in cells[k]: InBox(r.sys[r.ppp2sys[k]].domain, x), "ppp2sys")
\* set within which a trajectory that starts in region k stays
Staying(r, cells, k) == IF r.conservative THEN cells[k] ELSE ToSet(r.pwa[r.ppp2pwa[k]])
Finds(r, n, cells) ==
    LET closures == TLCEval([k \in 1..n |-> Closure(cells[k])])
        from == TLCEval({<<Staying(r, cells, k), r.ppp2sys[k]>>: k \in 1..n})
        ahead == TLCEval([f \in from |-> [j \in 1..n |->
                    LET s == r.sys[f[2]]
                        t == TLCEval(Closure(f[1])) IN
                    IF r.all THEN Attract(s, t, closures[j], r.N - 1)
                    ELSE IF r.N = 1 THEN closures[j] ELSE Exactly(s, t, t, closures[j], r.N - 1)]])
        sound(a, b) == Pre(r.sys[r.ppp2sys[a]], cells[a], LAMBDA y: y \in ahead[<<Staying(r, cells, a), r.ppp2sys[a]>>][b]) = cells[a]
        edges == ToSet(r.edges)
        low(a, b) == Calmly(r.sys[r.ppp2sys[a]], cells[a], Staying(r, cells, a), cells[b], r.N, r.all)
        near == TLCEval(Hops(r.adj, n, r.hops) \ edges) IN
    If(\A e \in edges: sound(e[1], e[2]), "transitions")
    \cup If(~ r.complete \/ \A e \in near: low(e[1], e[2]) # cells[e[1]], "transitions missing")
    \cup If(~ r.stable \/ \A e \in near: low(e[1], e[2]) = {}, "not bisimilar")
    \cup If(\A e \in ToSet(r.extra): e \in edges \/ r.flagged \/ sound(e[1], e[2]), "verify_transitions misses")
    \cup If(r.quiet, "verify_transitions alarms")
Abstraction(r) ==
    LET n == Len(r.regions)
        cells == TLCEval([k \in 1..n |-> Cell(r.regions[k])])
        dom == Cells(Points(r.domain, 2))
        wrong == Shape(r, n, cells, dom) \cup States(r, n) \cup Maps(r, n, cells) IN
    IF wrong # {} THEN wrong ELSE Finds(r, n, cells)
(* abstraction of a switched system, over the merged partition              *)
Switched(r) ==
    LET n == Len(r.regions)
        cells == TLCEval([k \in 1..n |-> Cell(r.regions[k])])
        dom == Cells(Points(r.domain, 2))
        modes == DOMAIN r.modes
        \* regions of one mode, cut by those of the others
        split(S, m) == {a \cap ToSet(r.modes[m].regions[b]): a \in S, b \in DOMAIN r.modes[m].regions} \ {{}}
        meet == FoldLeft(split, {dom}, [m \in modes |-> m])
        maps(m) == /\ Len(m.parents) = n /\ Len(m.trans) = n /\ Len(m.ppp2sys) = n
                   /\ \A k \in 1..n: /\ m.parents[k] \in DOMAIN m.regions /\ m.ppp2sys[k] \in DOMAIN m.sys
                                     /\ cells[k] \subseteq ToSet(m.regions[m.parents[k]])
                                     /\ cells[k] \subseteq ToSet(m.trans[k])
                                     /\ \A x \in cells[k]: InBox(m.sys[m.ppp2sys[k]].domain, x)
        wrong == Shape(r, n, cells, dom) \cup States(r, n) \cup If(\A m \in modes: maps(r.modes[m]), "maps")
                 \cup If({cells[k]: k \in 1..n} = meet, "merged regions")
                 \cup If({r.labeled[k]: k \in DOMAIN r.labeled} \subseteq {r.modes[m].name: m \in modes}, "labels of transitions")
        closures == TLCEval([k \in 1..n |-> Closure(cells[k])])
        ahead(m, a, b) == LET t == TLCEval(Closure(ToSet(m.trans[a]))) IN
                          IF m.N = 1 THEN closures[b] ELSE Exactly(m.sys[m.ppp2sys[a]], t, t, closures[b], m.N - 1)
        sound(m, a, b) == LET x == TLCEval(ahead(m, a, b)) IN Pre(m.sys[m.ppp2sys[a]], cells[a], LAMBDA y: y \in x) = cells[a]
        low(m, a, b) == Calmly(m.sys[m.ppp2sys[a]], cells[a], ToSet(m.trans[a]), cells[b], m.N, FALSE)
    IN IF wrong # {} THEN wrong ELSE
    If(\A m \in modes: \A e \in ToSet(r.modes[m].edges): sound(r.modes[m], e[1], e[2]), "transitions")
    \cup If(\A m \in modes: ~ r.complete \/ \A e \in Hops(r.adj, n, r.modes[m].hops) \ ToSet(r.modes[m].edges):
                low(r.modes[m], e[1], e[2]) # cells[e[1]], "transitions missing")
Verdict(r) ==
    IF r.fail # "" THEN {r.fail} ELSE
    CASE r.what = "solve" -> Solve(r)
      [] r.what = "abstraction" -> Abstraction(r)
      [] r.what = "switched" -> Switched(r)
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
