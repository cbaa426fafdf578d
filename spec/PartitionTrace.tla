--------------------------- MODULE PartitionTrace ---------------------------
(* Partitions that the code computed, checked against Partition.             *)
EXTENDS Partition, Json, IOUtils
VARIABLES i, bad
Recs == ndJsonDeserialize(IOEnv.TRACE)
If(c, name) == IF c THEN {} ELSE {name}
SetOf(q) == Range(q)
Cell(x) == <<SetOf(x[1]), SetOf(x[2])>>
Symmetric(adj) == \A a, b \in DOMAIN adj: adj[a][b] = adj[b][a]
\* regions of the result r.new; all refinements
Common(r, pts) ==
    LET n == Len(r.new)
        cells == TLCEval([k \in 1..n |-> Cell(r.new[k])]) IN
    If(\A a, b \in 1..n: a = b \/ cells[a][1] \cap cells[b][1] = {}, "overlap")
    \cup If(UNION {cells[k][1]: k \in 1..n} = pts, "cover")
    \cup If(~ r.boxes \/ \A k \in 1..n: cells[k][1] # {}, "empty region")
    \cup If(\A k \in 1..n: \A p \in cells[k][1]: Holds(p, r.props) = cells[k][2], "propositions")
    \cup If(SetOf(r.named) = {r.props[k][1]: k \in DOMAIN r.props}, "symbols")
    \cup If(Len(r.adj) = n /\ \A a \in 1..n: Len(r.adj[a]) = n, "adjacency size")
    \cup (IF Len(r.adj) # n THEN {} ELSE
          If(Symmetric(r.adj) /\ \A a \in 1..n: r.adj[a][a] = 1, "adjacency symmetric")
          \cup If(~ r.boxes \/ \A a, b \in 1..n: (r.adj[a][b] = 1) = (a = b \/ Adjacent(cells[a][1], cells[b][1])), "adjacency"))
\* regions with sample points; polytopes that are not boxes can yield regions with none
Full(r) == {k \in DOMAIN r.new: r.new[k][1] # <<>>}
Parents(r, n, m) == Len(r.parents) = n /\ \A k \in 1..n: r.parents[k] \in 1..m
Quotients(r, pts) ==
    LET full == Full(r) IN
    If({Cell(r.new[k]): k \in full} = Quotient(pts, r.props) /\ Cardinality(full) = Cardinality(Quotient(pts, r.props)), "quotient")
Convex(r, pts) ==
    LET n == Len(r.new) IN
    IF ~ Parents(r, n, Len(r.old)) THEN {"parents"} ELSE
    If(\A k \in 1..n: SetOf(r.new[k][1]) \subseteq SetOf(r.old[r.parents[k]][1]), "parents")
    \cup If(\A k \in 1..n: r.pieces[k] = 1, "convex")
    \cup If(~ r.boxes \/ \A k \in 1..n: r.new[k][1] = <<>> \/ IsBox(SetOf(r.new[k][1])), "convex")
Subsystems(r, pts) ==
    LET n == Len(r.new)
        m == Len(r.old)
        q == Len(r.subs)
        meet(s, p) == {x \in SetOf(r.old[p][1]): In(x, r.subs[s])} IN
    IF ~ Parents(r, n, m) \/ Len(r.active) # n THEN {"parents"} ELSE
    If(\A k \in 1..n: r.active[k] \in 1..q /\ SetOf(r.new[k][1]) = meet(r.active[k], r.parents[k]), "active subsystem")
    \cup If({<<r.active[k], r.parents[k]>>: k \in Full(r)} = {x \in (1..q) \X (1..m): meet(x[1], x[2]) # {}}
            /\ Cardinality({<<r.active[k], r.parents[k]>>: k \in 1..n}) = n, "intersections")
Gridded(r, pts) ==
    LET want == Meet({Cell(x): x \in Range(r.old)}, GridSets(pts, [k \in DOMAIN r.sizes |-> Intervals(r.low[k], r.high[k], r.sizes[k])])) IN
    If({Cell(r.new[k]): k \in Full(r)} = want /\ Cardinality(Full(r)) = Cardinality(want), "grid")
TS(r) ==
    LET n == Len(r.new) IN
    If(Len(r.states) = n /\ Cardinality({r.states[k]: k \in 1..n}) = n, "states")
    \cup If(\A k \in DOMAIN r.labels: SetOf(r.labels[k]) = SetOf(r.new[k][2]), "labels of states")
    \cup If(Len(r.labels) = n, "labels of states")
    \cup If({<<x[1], x[2]>>: x \in Range(r.edges)} = Edges(r.adj) /\ Len(r.edges) = Cardinality(Edges(r.adj)), "transitions")
    \cup If(SetOf(r.ap) = {r.props[k][1]: k \in DOMAIN r.props}, "atomic propositions")
\* constructor, and verdict of `preserves_predicates`
Built(r, pts) ==
    LET cells == [k \in DOMAIN r.old |-> Cell(r.old[k])]
        names == {r.props[k][1]: k \in DOMAIN r.props}
        ok == /\ \A k \in DOMAIN cells: cells[k][1] \subseteq pts /\ cells[k][2] \subseteq names
              /\ r.asize = <<Len(cells), Len(cells)>>
    IN If(r.accepted = ok, "accepted")
       \cup (IF ok /\ r.accepted THEN
                If(r.preserves = \A k \in DOMAIN cells: \A p \in cells[k][1]: Holds(p, r.props) = cells[k][2], "preserves_predicates")
                \cup If(\A k \in DOMAIN cells: SetOf(r.reg2props[k]) = cells[k][2], "reg2props")
             ELSE {})
Verdict(r) ==
    IF r.fail # "" THEN {r.fail} ELSE
    LET all == SetOf(r.points)
        pts == TLCEval({p \in all: In(p, r.domain)}) IN
    CASE r.what = "built" -> Built(r, pts)
      [] r.what = "quotient" -> Common(r, pts) \cup Quotients(r, pts)
      [] r.what = "convex" -> Common(r, pts) \cup Convex(r, pts)
      [] r.what = "subsystems" -> Common(r, pts) \cup Subsystems(r, pts)
      [] r.what = "grid" -> Common(r, pts) \cup Gridded(r, pts)
      [] r.what = "ts" -> TS(r)
      [] r.what = "refused" -> If(r.accepted = \A p \in pts: \E s \in Range(r.subs): In(p, s), "undefined system")
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
