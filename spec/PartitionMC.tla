---------------------------- MODULE PartitionMC -----------------------------
(* Refinement of a partition: first by each proposition, in some order, then  *)
(* by grids and by domains of subsystems, in any order.                       *)
EXTENDS Partition, Json
CONSTANTS W, H, Depth, Emitting
VARIABLES cells, props, left, hist
vars == <<cells, props, left, hist>>
Points == {<<2 * x - 1, 2 * y - 1>>: x \in 1..W, y \in 1..H}
Box(a, b, c, d) == << <<<<-1, 0>>, - 2 * a>>, <<<<1, 0>>, 2 * b>>, <<<<0, -1>>, - 2 * c>>, <<<<0, 1>>, 2 * d>> >>
Boxes == {Box(a, b, c, d): a \in 0..(W-1), b \in 1..(W+1), c \in {0, 1}, d \in {1, H}}
Good == {b \in Boxes: - b[1][2] < b[2][2] /\ - b[3][2] < b[4][2]}
Halves == { <<Inside(Points, Box(0, k, 0, H)), Points \ Inside(Points, Box(0, k, 0, H))>>: k \in 1..(W-1)}
Start == [k \in 1..2 |-> <<>>]
Init == /\ props \in {<<<<"p", b>>, <<"q", c>>>>: b \in Good, c \in Good}
        /\ left = {1, 2} /\ cells = {<<Points, {}>>} /\ hist = <<>>
Label == /\ \E k \in left: cells' = SplitBy(cells, props[k]) /\ left' = left \ {k}
         /\ UNCHANGED <<props, hist>>
Refine == /\ left = {} /\ Len(hist) < Depth
          /\ \/ \E sx \in 1..W, sy \in 1..H:
                  /\ cells' = Meet(cells, GridSets(Points, <<Intervals(0, 2 * W, 2 * sx), Intervals(0, 2 * H, 2 * sy)>>))
                  /\ hist' = Append(hist, <<"grid", sx, sy>>)
             \/ \E k \in 1..(W-1):
                  /\ cells' = Meet(cells, {Inside(Points, Box(0, k, 0, H)), Inside(Points, Box(k, W, 0, H))})
                  /\ hist' = Append(hist, <<"subsystems", k, 0>>)
          /\ UNCHANGED <<props, left>>
Next == Label \/ Refine
Partitions == IsPartition(cells, Points)
Labels == left = {} => Preserves(cells, props) /\ Finer(cells, Quotient(Points, props))
IsQuotient == left = {} /\ hist = <<>> => cells = Quotient(Points, props)
\* labels are never wrong about propositions that have been considered
Sofar == \A c \in cells: \A p \in c[1]: \A k \in {1, 2} \ left: (props[k][1] \in c[2]) = In(p, props[k][2])
\* adjacency in a finer partition implies adjacency of parents
Inherit == left = {} => \A c, d \in cells: Adjacent(c[1], d[1]) =>
    \E e, f \in Quotient(Points, props): c[1] \subseteq e[1] /\ d[1] \subseteq f[1] /\ Adjacent(e[1], f[1])
Emit == ~ Emitting \/ left # {} \/ Len(hist) # Depth \/ PrintT("@@" \o ToJson([props |-> props, hist |-> hist,
            cells |-> {<<c[1], c[2]>>: c \in cells}]))
==============================================================================
