------------------------------ MODULE GridTrace ------------------------------
(* Observations of the code against Grid.                                      *)
EXTENDS Grid, Formula, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad

World(x) == [h |-> x.h, w |-> x.w, wall |-> Range(x.wall), init |-> Range(x.init), goal |-> Range(x.goal)]
Same(x, g) == /\ x.h = g.h /\ x.w = g.w /\ Range(x.wall) = g.wall
              /\ Range(x.init) = g.init /\ Range(x.goal) = g.goal
              /\ Len(x.init) = Cardinality(g.init) /\ Len(x.goal) = Cardinality(g.goal)

(* ---- histories of one world, with its views observed after each operation *)
Shown(g, t) == t = [a \in 1..g.h |-> [b \in 1..g.w |-> Symbol(g, <<a, b>>)]]
Representable(g) == g.init \cap g.goal = {} /\ (g.init \cup g.goal) \cap g.wall = {}
Views(g, x) ==
    (IF ~Same(x.world, g) THEN {"world"} ELSE {})
    \cup (IF ~Shown(g, x.dump) THEN {"dumps"} ELSE {})
    \cup (IF ~Shown(g, x.pretty) \/ ~Shown(g, x.grid) THEN {"pretty"} ELSE {})
    \cup (IF Representable(g) /\ ~(Same(x.loaded, g) /\ x.equal) THEN {"dumps-loads"} ELSE {})
    \cup (IF ~Same(x.loadtext, [g EXCEPT !.goal = (@ \ g.init) \ g.wall, !.init = @ \ g.wall]) THEN {"loads"} ELSE {})
    \cup (IF {<<e[1], e[2]>> : e \in Range(x.empty)} # {c \in (0..g.h+1) \X (0..g.w+1) : c \in Empty(g)}
          THEN {"is_empty"} ELSE {})
    \cup (IF Range(x.wrapped) # Empty(g) THEN {"is_empty-negative"} ELSE {})
    \cup (IF \E n \in 1..Len(x.reach) : LET r == x.reach[n] IN
              r.r # Reachable(g, <<r.a[1], r.a[2]>>, <<r.b[1], r.b[2]>>) THEN {"is_reachable"} ELSE {})
    \cup (IF \E n \in 1..Len(x.eqs) : LET e == x.eqs[n] IN e.r # Same(e.world, g) \/ e.n = e.r THEN {"equality"} ELSE {})
Judge(g, x) ==
    LET r == TLCEval(Step(g, x.op))
    IN [g |-> r.g, bad |-> {x.op.op \o ":" \o b : b \in
          IF r.ok # x.ok THEN {IF r.ok THEN "wrongly-rejected" ELSE "wrongly-accepted"} ELSE Views(r.g, x)}]
RECURSIVE Run(_, _, _)
Run(g, xs, n) == IF n > Len(xs) THEN {}
                 ELSE LET j == TLCEval(Judge(g, xs[n])) IN IF j.bad # {} THEN j.bad ELSE Run(j.g, xs, n + 1)

(* ---- specifications.  x.code[c]: how a cell is encoded:                     *)
(* int: variables (x.vr, x.vc); bool: variable numbers x.cell[row][col]        *)
Val(x, c) == IF x.enc = "int"
             THEN [v \in 1..x.nv |-> IF v = x.vr THEN c[1] - 1 ELSE IF v = x.vc THEN c[2] - 1 ELSE 0]
             ELSE [v \in 1..x.nv |-> IF v = x.cell[c[1]][c[2]] THEN 1 ELSE 0]
States(x, g) == IF x.enc = "int" THEN {Val(x, c) : c \in Cells(g)} ELSE [1..x.nv -> {0, 1}]
SpecBad(x) ==
    LET g == World(x.world)
        vals == TLCEval(States(x, g))
        starts == {Val(x, c) : c \in g.init}
        Goals(fs) == {{c \in Empty(g) : EvalB(fs[n], Val(x, c), Val(x, c))} : n \in 1..Len(fs)}
    IN (IF x.dom # (IF x.enc = "int" THEN <<<<0, g.h - 1>>, <<0, g.w - 1>>>> ELSE [n \in 1..g.h*g.w |-> <<0, 1>>])
        THEN {"domains"} ELSE {})
       \cup (IF x.others # 0 THEN {"roles"} ELSE {})
       \cup (IF g.init # {} /\ g.init \cap g.wall = {} /\ \E s \in vals : AllB(x.sinit, s, s) # (s \in starts)
             THEN {"initial-cells"} ELSE {})
       \cup (IF g.init = {} /\ \E c \in Empty(g) : ~AllB(x.sinit, Val(x, c), Val(x, c)) THEN {"initial-cells"} ELSE {})
       \cup (IF \E c \in Empty(g) : \E t \in vals :
                 AllB(x.safety, Val(x, c), t) # (\E d \in Moves(g, c) : t = Val(x, d))
             THEN {"moves"} ELSE {})
       \cup (IF g.goal \cap g.wall = {} /\ Goals(x.prog) # {{c} : c \in g.goal} THEN {"goals"} ELSE {})
(* ---- names of cells: x.cells = seq of [c, f (current), t (primed), st (state() valuation)] *)
NamesBad(x) ==
    LET g == World(x.world) vals == TLCEval(States(x, g))
        zero == [v \in 1..x.nv |-> 0]
        bad1 == {n \in 1..Len(x.cells) : LET e == x.cells[n] c == Wrap(g, e.c) IN
                   IF ~InRange(g, e.c) THEN e.ok ELSE
                   ~e.ok \/ e.st # Val(x, c)
                   \/ \E s \in {Val(x, d) : d \in Cells(g)} :
                        \/ EvalB(e.f, s, zero) # (s = Val(x, c))
                        \/ EvalB(e.t, zero, s) # (s = Val(x, c))}
    IN IF bad1 # {} THEN {"cell-names"} ELSE {}
(* ---- trolls: variables of Y as in Val with x.y; troll k with x.tr[k]         *)
(* every part is [enc, nv, vr, vc, cell] over the same numbering               *)
TVal(x, k, c) == \* cell c in coordinates of the whole grid
    LET o == AreaOffset(x.tr[k].center, x.tr[k].r) IN
    Val(x.tr[k].code, <<c[1] - o[1], c[2] - o[2]>>)
Combine(x, yc, tcs) == \* all variables together
    [v \in 1..x.nv |-> Val(x.y, yc)[v] + FoldSet(LAMBDA k, acc : acc + TVal(x, k, tcs[k])[v], 0, DOMAIN tcs)]
TrollBad(x) ==
    LET g == World(x.world)
        K == 1..Len(x.tr)
        Ar(k) == Area(g, x.tr[k].center, x.tr[k].r)
        home == [k \in K |-> x.tr[k].center]
        y0 == CHOOSE c \in Empty(g) : TRUE
        With(k, c) == [home EXCEPT ![k] = c]
        Allowed(y, ts) == \A k \in K : y # ts[k]
        Tuples == {f \in [K -> Cells(g)] : \A k \in K : f[k] \in Ar(k)}
    IN (IF \E k \in K : \E c \in Ar(k) \ g.wall : \E d \in Ar(k) :
            \E yy \in {y0, CHOOSE c2 \in Empty(g) : \A c3 \in Empty(g) : c3[1] < c2[1] \/ (c3[1] = c2[1] /\ c3[2] <= c2[2])} :
            AllB(x.env_safety, Combine(x, yy, With(k, c)), Combine(x, y0, With(k, d))) # (d \in TrollMoves(g, x.tr[k], c))
        THEN {"troll-moves"} ELSE {})
       \cup (IF (\A k \in K : Ar(k) \ g.wall # {}) /\ \E k \in K : \E c \in Ar(k) :
                 AllB(x.env_init, Combine(x, y0, With(k, c)), Combine(x, y0, home))
                 # (IF x.anywhere THEN c \notin g.wall ELSE c = home[k])
             THEN {"troll-start"} ELSE {})
       \cup (IF \A k \in K : home[k] \notin g.wall
             THEN LET ext(f) == {ts \in Tuples : EvalB(f, Combine(x, y0, ts), Combine(x, y0, ts))}
                  IN IF {ext(x.env_prog[n]) : n \in 1..Len(x.env_prog)} # {{ts \in Tuples : ts[k] = home[k]} : k \in K}
                     THEN {"troll-return"} ELSE {}
             ELSE {})
       \cup (IF \E y \in Empty(g) : \E z \in Cells(g) : (z \in Moves(g, y) \/ z \in g.wall \/ z[2] = 1) /\ \E ts \in Tuples :
                 AllB(x.sys_safety, Combine(x, y, home), Combine(x, z, ts)) # (z \in Moves(g, y) /\ Allowed(z, ts))
             THEN {"troll-collision"} ELSE {})
       \cup (IF x.has_moves /\
                \E k \in K : {m : m \in Range(x.moves[k])} # {TVal(x, k, c) : c \in Ar(k) \ g.wall}
             THEN {"troll-states"} ELSE {})
       \cup (IF x.y.enc = "int" /\ (x.sys_dom # <<<<0, g.h - 1>>, <<0, g.w - 1>>>>
                 \/ x.env_dom # [n \in 1..2 * Len(x.tr) |->
                       LET tr == x.tr[(n + 1) \div 2] k == IF n % 2 = 1 THEN 1 ELSE 2
                       IN <<0, Min({<<g.h, g.w>>[k], tr.center[k] + tr.r}) - AreaOffset(tr.center, tr.r)[k] - 1>>])
             THEN {"domains"} ELSE {})
       \cup (IF x.y.enc = "bool" /\ (Len(x.sys_dom) # g.h * g.w \/ Range(x.sys_dom) \cup Range(x.env_dom) # {<<0, 1>>}
                 \/ Len(x.env_dom) + Len(x.sys_dom) # x.nv)
             THEN {"domains"} ELSE {})
       \cup (IF g.goal \cap g.wall = {} /\
                 {{c \in Empty(g) : EvalB(x.sys_prog[n], Combine(x, c, home), Combine(x, c, home))} : n \in 1..Len(x.sys_prog)}
                 # {{c} : c \in g.goal} THEN {"goals"} ELSE {})
       \cup (IF g.init # {} /\ \E c \in Cells(g) : AllB(x.sys_init, Combine(x, c, home), Combine(x, c, home)) # (c \in g.init)
             THEN {"initial-cells"} ELSE {})
(* ---- generated worlds *)
NarrowBad(x) ==
    LET g == World(x.world)
        passage == {x.ptop + n : n \in 1..x.pw}       \* 1-based rows
        Shape(a, b) == g.wall = {c \in Cells(g) : c[2] > a /\ c[2] <= b /\ c[1] \notin passage}
    IN (IF x.world.h # x.h \/ x.world.w # x.w THEN {"size"} ELSE {})
       \cup (IF ~\E a \in 1..g.w : \E b \in a..g.w :
                /\ Shape(a, b) /\ \A c \in g.init : c[2] <= a /\ \A c2 \in g.goal : c2[2] > b
                \* zone width is (1 - length) / 2 of the width, at least one column
                /\ (a = 1 \/ (20 * a <= (10 - x.len10) * g.w /\ (10 - x.len10) * g.w < 20 * (a + 1) + 1))
                /\ b = g.w - a
             THEN {"narrow-passage"} ELSE {})
       \cup (IF Cardinality(g.init) # x.ni \/ Cardinality(g.goal) # x.ng THEN {"counts"} ELSE {})
       \cup (IF x.prefix # x.want THEN {"prefix"} ELSE {})
RandomBad(x) ==
    LET g == World(x.world) trolls == Range(x.trolls) IN
    (IF g.h # x.h \/ g.w # x.w THEN {"size"} ELSE {})
    \cup (IF Cardinality(g.wall) # x.nwall \/ Cardinality(g.init) # x.ni \/ Cardinality(g.goal) # x.ng
             \/ Cardinality(trolls) # x.nt THEN {"counts"} ELSE {})
    \cup (IF ~(g.init \cup g.goal \cup trolls \subseteq Empty(g)) \/ g.init \cap g.goal # {}
             \/ (g.init \cup g.goal) \cap trolls # {} THEN {"overlap"} ELSE {})
    \cup (IF x.feasible /\ \E a, b \in g.init \cup g.goal : ~Reachable(g, a, b) THEN {"infeasible"} ELSE {})
    \cup (IF x.prefix # x.want THEN {"prefix"} ELSE {})
(* ---- partition: one box per cell, x.side = <<width, height>>, x.off         *)
PartBad(x) ==
    LET Box(c) == <<x.off[1] + (c[2]-1) * x.side[1], x.off[1] + c[2] * x.side[1],
                    x.off[2] + (x.h - c[1]) * x.side[2], x.off[2] + (x.h - c[1] + 1) * x.side[2]>>
    IN IF {<<r.cell[1], r.cell[2], r.box>> : r \in Range(x.regions)} # {<<c[1], c[2], Box(c)>> : c \in (1..x.h) \X (1..x.w)}
          \/ Len(x.regions) # x.h * x.w
       THEN {"partition"} ELSE {}
(* ---- cell labels *)
CoordBad(x) == IF x.r # x.want THEN {"extract_coord"} ELSE {}

Verdict(x) ==
    CASE x.kind = "hist" -> Run(World(x.start), x.hist, 1)
      [] x.kind = "spec" -> SpecBad(x)
      [] x.kind = "names" -> NamesBad(x)
      [] x.kind = "trolls" -> TrollBad(x)
      [] x.kind = "narrow" -> NarrowBad(x)
      [] x.kind = "random" -> RandomBad(x)
      [] x.kind = "part" -> PartBad(x)
      [] x.kind = "coord" -> CoordBad(x)
      [] x.kind = "failed" -> {"raised-" \o x.what}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
