---- MODULE GR1MC ----
(* A family of small games over one environment and one system Boolean, used to check the game   *)
(* solution against its definition (existence of strategies) and to generate syntheses.          *)
EXTENDS GR1, Json
CONSTANTS Stride, Offset,     \* take every Stride-th game
          Brute              \* compare with all memoryless strategies
VARIABLES g, done

X == [op |-> "var", v |-> 1]
Y == [op |-> "var", v |-> 2]
T == [op |-> "true"]
Fa == [op |-> "false"]
Nx(f) == [op |-> "next", a |-> <<f>>]
Not(f) == [op |-> "not", a |-> <<f>>]
Op(o, f, h) == [op |-> o, a |-> <<f, h>>]

EsPool == << << >>, <<Op("iff", Nx(X), Not(X))>>, <<Op("imp", X, Nx(Not(X)))>>,
             <<Op("imp", Y, Nx(X))>>, <<Op("imp", X, Fa)>>, <<Op("iff", Nx(X), Y)>> >>
SsPool == << << >>, <<Op("iff", Nx(Y), Nx(X))>>, <<Op("iff", Nx(Y), X)>>,
             <<Op("imp", Y, Nx(Not(Y)))>>, <<Op("imp", Op("and", X, Y), Fa)>>,
             <<Op("or", Not(Nx(X)), Nx(Y)), Op("imp", Y, Nx(Y))>> >>
EpPool == << << >>, <<X>>, <<Not(X)>>, <<X, Not(X)>>, <<Op("or", X, Y)>> >>
SpPool == << << >>, <<Y>>, <<Y, Not(Y)>>, <<Op("and", X, Y)>>, <<Op("and", Not(X), Y)>> >>
\* initial conditions per quantification
Inits == << <<"AE", << >>, << >>>>, <<"AE", <<X>>, <<Y>>>>, <<"AE", <<Not(X)>>, <<Op("iff", X, Not(Y))>>>>,
            <<"AA", << >>, << >>>>, <<"AA", <<Op("iff", X, Y)>>, << >>>>, <<"AA", <<X, Y>>, << >>>>,
            <<"EE", << >>, <<Op("iff", X, Not(Y))>>>>, <<"EE", << >>, <<X>>>>, <<"EE", << >>, << >>>>,
            <<"EA", << >>, <<Y>>>>, <<"EA", <<X>>, << >>>>, <<"EA", <<Not(X)>>, <<Not(Y)>>>> >>

Decl == << [own |-> "env", lo |-> 0, hi |-> 1], [own |-> "sys", lo |-> 0, hi |-> 1] >>

Game(a, b, c, d, o, n) ==
    [vars |-> Decl, es |-> EsPool[a], ss |-> SsPool[b], ep |-> EpPool[c], sp |-> SpPool[d],
     moore |-> o \in {1, 2}, plus_one |-> o \in {1, 3},
     qinit |-> Inits[n][1], ei |-> Inits[n][2], si |-> Inits[n][3]]

Init == /\ done = FALSE
        /\ \E a \in 1..Len(EsPool), b \in 1..Len(SsPool), c \in 1..Len(EpPool),
              d \in 1..Len(SpPool), o \in 1..4 :
            LET k == (((a * 6 + b) * 5 + c) * 5 + d) * 4 + o
                n == 1 + ((k * 7 + a + d) % Len(Inits))
            IN /\ k % Stride = Offset
               /\ g = Game(a, b, c, d, o, n)
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED g

Emit == done \/ PrintT("@@" \o ToJson(g))

----
\* Invariants of the game solution.

Fixpoint == LET G == TLCEval(Arena(g)) W == Win(G) IN
    /\ W = TLCEval(WinFrom(G, 1..G.n))
    \* every winning state lets the system stay in the winning set or wait outside an env goal
    /\ \A s \in W : \E eg \in EnvGoals(G), sg \in SysGoals(G) : TRUE
    /\ \A s \in W : Step(G, s, W) \/ \E eg \in EnvGoals(G) : s \notin eg

Monotone == LET G == TLCEval(Arena(g)) W == Win(G) IN
    /\ W \subseteq Win([G EXCEPT !.ep = Append(@, {s \in 1..G.n : s % 2 = 0})])  \* more assumptions
    /\ Win([G EXCEPT !.sp = Append(@, {s \in 1..G.n : s % 2 = 0})]) \subseteq W  \* more guarantees
    /\ W \subseteq Win([G EXCEPT !.moore = FALSE])
    /\ W \subseteq Win([G EXCEPT !.plus_one = FALSE])

\* memoryless strategies: Mealy: (state, x') -> y';  Moore: state -> y'
Strats(G) == IF G.moore THEN [1..G.n -> Ys(G)] ELSE [1..G.n -> [Xs(G) -> Ys(G)]]
Choice(G, f, s, x) == IF G.moore THEN f[s] ELSE f[s][x]

\* states from which strategy f is winning
Wins(G, f) ==
    LET all(s) == {St(G, x, Choice(G, f, s, x)) : x \in Xs(G)}
        okstep(s) == \A m \in all(s) :
             IF G.plus_one THEN m \in G.sa[s] ELSE (m \in G.ea[s] => m \in G.sa[s])
        succ(s) == all(s) \cap G.ea[s]
        suc == TLCEval([s \in 1..G.n |-> TLCEval(succ(s))])
        sc(s) == suc[s]
        pre == TLCEval([s \in 1..G.n |-> TLCEval({d \in 1..G.n : s \in suc[d]})])
        pd(s) == pre[s]
        badcycle(base) == UNION {FairSet(pd, EnvGoals(G), base \ sg) : sg \in SysGoals(G)}
        good(s) == LET R == Reach(sc, {s}, {s}, 0) IN
            /\ \A c \in R : okstep(c)
            /\ badcycle(R) = {}
    IN {s \in 1..G.n : good(s)}

\* with one recurrence goal, memoryless strategies suffice (Rabin objective)
Definition == (Brute /\ done /\ Len(g.sp) <= 1) =>
    LET G == TLCEval(Arena(g)) W == Win(G)
        all == TLCEval({Wins(G, f) : f \in Strats(G)})
    IN (UNION all) = W
====
