-------------------------------- MODULE Plan --------------------------------
(* Least-cost plans: lexicographic vector costs, shortest paths, and plans  *)
(* that violate prioritized safety rules as little as possible (Tumova,     *)
(* Hall, Karaman, Frazzoli, Rus: HSCC 2013).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- lexicographic order on vectors of equal length ---- *)
LexLess(a, b) == \E k \in 1..Len(a):
    (\A j \in 1..(k - 1): a[j] = b[j]) /\ a[k] < b[k]
LexLeq(a, b) == a = b \/ LexLess(a, b)
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Zero(d) == [k \in 1..d |-> 0]
Inf == <<>>  \* the cost of what cannot be reached
MinOf(S) == IF S = {} THEN Inf
    ELSE CHOOSE m \in S: \A o \in S: LexLeq(m, o)

(* ---- shortest paths: least solution of the relaxation equations ---- *)
(* E: set of records [u, v, c].  The cost of the empty path is zero.    *)
Relax(N, E, dist) == TLCEval([x \in N |->
    MinOf((IF dist[x] = Inf THEN {} ELSE {dist[x]})
        \union {Plus(dist[e.u], e.c):
            e \in {f \in E: f.v = x /\ dist[f.u] # Inf}})])
RECURSIVE FixDist(_, _, _)
FixDist(N, E, dist) == LET next == Relax(N, E, dist)
    IN IF next = dist THEN dist ELSE FixDist(N, E, next)
RECURSIVE Steps(_, _, _, _)
Steps(N, E, dist, k) == IF k = 0 THEN dist ELSE Steps(N, E, Relax(N, E, dist), k - 1)
Start(N, S, d) == [x \in N |-> IF x \in S THEN Zero(d) ELSE Inf]
Least(N, T, dist) == MinOf({dist[x]: x \in {y \in T \cap N: dist[y] # Inf}})
Opt(N, E, S, T, d) == Least(N, T, FixDist(N, E, Start(N, S, d)))

(* ---- rules: nondeterministic finite automata over sets of propositions ----
   r = [n, edges (set of <<q, letter, q2>>), init, acc, prio, level]        *)
RECURSIVE Run(_, _, _)
Run(r, Q, w) == IF w = <<>> THEN Q ELSE
    Run(r, {e[3]: e \in {f \in r.edges: f[1] \in Q /\ f[2] = Head(w)}}, Tail(w))
Accepts(r, w) == Run(r, r.init, w) \cap r.acc # {}
RECURSIVE Without(_, _, _)
Without(w, D, k) == IF k > Len(w) THEN <<>> ELSE
    (IF k \in D THEN <<>> ELSE <<w[k]>>) \o Without(w, D, k + 1)
(* the letters that have to vanish so that the rest of the word is accepted *)
Unsafety(r, w) == LET ok == {Cardinality(D): D \in {X \in SUBSET (1..Len(w)):
        Accepts(r, Without(w, X, 1))}}
    IN IF ok = {} THEN -1 ELSE r.prio * (CHOOSE m \in ok: \A o \in ok: m <= o)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* The cost of a word: unsafety for each level, summed over its rules. *)
WordCost(rules, nlev, w) ==
    LET u == [k \in 1..Len(rules) |-> Unsafety(rules[k], w)]
    IN IF \E k \in 1..Len(rules): u[k] = -1 THEN Inf ELSE
       [l \in 1..nlev |-> SumSeq([k \in 1..Len(rules) |->
            IF rules[k].level = l - 1 THEN u[k] ELSE 0])]

(* ---- the system: ks = [n, edges (set of <<s, s2, c>>), ap, init] ---- *)
Word(ks, path) == [k \in 1..Len(path) |-> ks.ap[path[k]]]
IsPath(ks, path) == /\ path # <<>> /\ path[1] \in ks.init
    /\ \A k \in 1..(Len(path) - 1):
        \E e \in ks.edges: e[1] = path[k] /\ e[2] = path[k + 1]
StepCost(ks, a, b) == LET C == {e[3]: e \in {f \in ks.edges: f[1] = a /\ f[2] = b}}
    IN CHOOSE m \in C: \A o \in C: m <= o
PathCost(ks, rules, nlev, path) ==
    LET w == WordCost(rules, nlev, Word(ks, path))
    IN IF w = Inf THEN Inf ELSE Append(w,
        SumSeq([k \in 1..(Len(path) - 1) |-> StepCost(ks, path[k], path[k + 1])]))

(* ---- the weighted product: in each step, each rule either reads the   ----
   ---- letter for free, or lets it vanish, for its priority             ---- *)
Moves(r, q, letter) ==
    LET free == {e[3]: e \in {f \in r.edges: f[1] = q /\ f[2] = letter}}
    IN {<<p, 0>>: p \in free} \union (IF q \in free THEN {} ELSE {<<q, r.prio>>})
RECURSIVE Choices(_, _, _, _)
Choices(rules, qs, letter, k) == IF k > Len(rules) THEN {<<>>} ELSE
    {<<m>> \o rest: m \in Moves(rules[k], qs[k], letter),
        rest \in Choices(rules, qs, letter, k + 1)}
Viol(rules, nlev, ch) == [l \in 1..nlev |-> SumSeq([k \in 1..Len(rules) |->
    IF rules[k].level = l - 1 THEN ch[k][2] ELSE 0])]
Target(s, ch) == <<s, [k \in 1..Len(ch) |-> ch[k][1]]>>
RECURSIVE Tuples(_, _)
Tuples(sets, k) == IF k > Len(sets) THEN {<<>>} ELSE
    {<<x>> \o rest: x \in sets[k], rest \in Tuples(sets, k + 1)}
RuleStates(rules) == Tuples([k \in 1..Len(rules) |-> 1..rules[k].n], 1)
RuleInit(rules) == Tuples([k \in 1..Len(rules) |-> rules[k].init], 1)
RuleAcc(rules) == Tuples([k \in 1..Len(rules) |-> rules[k].acc], 1)
(* 0 is the state before the first state of the path *)
ProductStates(ks, rules) == {<<s, q>>: s \in 0..ks.n, q \in RuleStates(rules)}
ProductInit(rules) == {<<0, q>>: q \in RuleInit(rules)}
From(ks, rules, nlev, x) ==
    LET moves == IF x[1] = 0 THEN {<<s, 0>>: s \in ks.init}
            ELSE {<<e[2], e[3]>>: e \in {f \in ks.edges: f[1] = x[1]}}
    IN UNION {{[u |-> x, v |-> Target(m[1], ch),
                c |-> Append(Viol(rules, nlev, ch), m[2])]:
            ch \in Choices(rules, x[2], ks.ap[m[1]], 1)}: m \in moves}
RECURSIVE Reach(_, _, _, _, _)
Reach(ks, rules, nlev, done, new) == IF new = {} THEN done ELSE
    LET E == UNION {From(ks, rules, nlev, x): x \in new}
        all == done \union E
        seen == {e.u: e \in all} \union new
    IN Reach(ks, rules, nlev, all, {e.v: e \in E} \ seen)
ProductEdges(ks, rules, nlev) == Reach(ks, rules, nlev, {}, ProductInit(rules))
ProductNodes(rules, E) == ProductInit(rules) \union {e.v: e \in E}
Goals(ks, rules, goal) ==
    {<<s, q>>: s \in {t \in 1..ks.n: goal \in ks.ap[t]}, q \in RuleAcc(rules)}
Best(ks, rules, nlev, goal) == LET E == TLCEval(ProductEdges(ks, rules, nlev))
    IN Opt(ProductNodes(rules, E), E, ProductInit(rules), Goals(ks, rules, goal), nlev + 1)
=============================================================================
