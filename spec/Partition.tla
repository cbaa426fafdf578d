------------------------------ MODULE Partition ------------------------------
(* Partitions of a polytopic domain.  A polytope is a sequence of half-spaces *)
(* <<a, b>>: the points p with a . p <= b, with integers.  Regions are decided*)
(* on a finite set of sample points, none of which is on a boundary.          *)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, SequencesExt, TLC
Dot(a, p) == FoldLeft(LAMBDA s, k: s + a[k] * p[k], 0, [k \in 1..Len(a) |-> k])
In(p, poly) == \A r \in Range(poly): Dot(r[1], p) < r[2]
Inside(points, poly) == {p \in points: In(p, poly)}
Boundary(p, poly) == \E r \in Range(poly): Dot(r[1], p) = r[2]
\* props: sequence of <<name, polytope>>
Holds(p, props) == {props[k][1]: k \in {j \in DOMAIN props: In(p, props[j][2])}}
-----------------------------------------------------------------------------
(* A partition is a set (or sequence) of cells <<set of points, set of props>> *)
Disjoint(cells) == \A c, d \in cells: c = d \/ c[1] \cap d[1] = {}
Covers(cells, points) == UNION {c[1]: c \in cells} = points
Preserves(cells, props) == \A c \in cells: \A p \in c[1]: Holds(p, props) = c[2]
IsPartition(cells, points) == Disjoint(cells) /\ Covers(cells, points) /\ \A c \in cells: c[1] # {}
Quotient(points, props) == {<<{p \in points: Holds(p, props) = l}, l>>: l \in {Holds(p, props): p \in points}}
\* one step of the construction of the quotient
SplitBy(cells, prop) ==
    UNION {{d \in {<<Inside(c[1], prop[2]), c[2] \cup {prop[1]}>>,
                    <<c[1] \ Inside(c[1], prop[2]), c[2]>>}: d[1] # {}}: c \in cells}
\* refinement by sets of points
Meet(cells, sets) == {d \in {<<c[1] \cap s, c[2]>>: c \in cells, s \in sets}: d[1] # {}}
Finer(fine, coarse) == \A c \in fine: \E d \in coarse: c[1] \subseteq d[1] /\ c[2] = d[2]
-----------------------------------------------------------------------------
(* Boxes on a lattice: points are centers of unit cells, with odd coordinates. *)
Abs(x) == IF x < 0 THEN - x ELSE x
Touch(p, q) == \A k \in DOMAIN p: Abs(p[k] - q[k]) <= 2
Adjacent(R, S) == \E p \in R: \E q \in S: Touch(p, q)
Ext(R, k) == {p[k]: p \in R}
\* a union of cells is convex iff it is a box
IsBox(R) ==
    LET dim == DOMAIN (CHOOSE p \in R: TRUE)
        side(k) == (Max(Ext(R, k)) - Min(Ext(R, k))) \div 2 + 1 IN
    Cardinality(R) = FoldSet(LAMBDA k, s: s * side(k), 1, dim)
\* intervals of a grid: low, low + size, ..., high; the last interval can be shorter
RECURSIVE Intervals(_, _, _)
Intervals(lo, hi, size) == IF lo + size >= hi THEN <<<<lo, hi>>>> ELSE <<<<lo, lo + size>>>> \o Intervals(lo + size, hi, size)
\* set of points of each box of a grid, where iv[k] are the intervals in dimension k
GridSets(points, iv) ==
    LET slot(p) == [k \in DOMAIN iv |-> CHOOSE j \in DOMAIN iv[k]: iv[k][j][1] < p[k] /\ p[k] < iv[k][j][2]] IN
    {{p \in points: slot(p) = s}: s \in {slot(p): p \in points}}
-----------------------------------------------------------------------------
(* Transition system of a partition: states are indices of regions.            *)
Edges(adj) == {<<i, j>> \in (DOMAIN adj) \X (DOMAIN adj): adj[i][j] # 0}
==============================================================================
