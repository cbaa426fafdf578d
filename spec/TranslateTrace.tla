---- MODULE TranslateTrace ----
(* Translated formulas and specifications, as read from the text produced for each language. *)
EXTENDS Translate, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
L == 3

\* ---- formulas
SameState(f, g, V) == \A s, t \in V : EvalB(f, s, t) = EvalB(g, s, t)
JudgeFormula(x, o, V) ==
    IF ~ Expressible(x.f, o.lang) THEN {}
    ELSE IF ~ o.ok THEN {o.lang \o "-rejected"}
    ELSE IF o.lang = "python"
         THEN IF \A k \in 1..Len(o.table) : EvalB(x.f, o.table[k].s, o.table[k].s) = o.table[k].v
              THEN {} ELSE {"python-meaning"}
    ELSE IF ~ o.read THEN {o.lang \o "-malformed"}
    ELSE IF IF x.temporal \/ NestedNext(x.f, FALSE) THEN Equivalent(x.f, o.g, V, L) ELSE SameState(x.f, o.g, V)
         THEN {} ELSE {o.lang \o "-meaning"}

\* ---- specifications
Parts == {"env_init", "env_safety", "env_prog", "sys_init", "sys_safety", "sys_prog"}
Expr(x, lang) == \A p \in Parts : \A k \in 1..Len(x.parts[p]) : Expressible(x.parts[p][k], lang)
Boolean(x) == \A k \in 1..Len(x.vars) : x.vars[k].bool
Cover(fs, gs, V) == \A k \in 1..Len(fs) : \E j \in 1..Len(gs) : SameState(fs[k], gs[j], V)
SameGoals(fs, gs, V) ==
    LET T == <<[op |-> "true"]>>
    IN Cover(fs, gs \o T, V) /\ Cover(gs, fs \o T, V)
SamePart(p, fs, gs, V) ==
    IF p \in {"env_prog", "sys_prog"} THEN SameGoals(fs, gs, V)
    ELSE \A s, t \in V : AllB(fs, s, t) = AllB(gs, s, t)
\* assumption or guarantee of a GR(1) specification
Side(init, safety, prog, w, l) ==
    /\ \A k \in 1..Len(init) : Sat(init[k], w, l)
    /\ \A k \in 1..Len(safety) : \A j \in 1..Len(w) : Holds(safety[k], w, l)[j]
    /\ \A k \in 1..Len(prog) : \E j \in l..Len(w) : Holds(prog[k], w, l)[j]
Assume(x, w, l) == Side(x.parts.env_init, x.parts.env_safety, x.parts.env_prog, w, l)
Guarantee(x, w, l) == Side(x.parts.sys_init, x.parts.sys_safety, x.parts.sys_prog, w, l)

JudgeSpec(x, o, V) ==
    IF ~ o.ok THEN IF o.lang = "tulip" \/ (Expr(x, o.lang) /\ (o.lang = "wring" => Boolean(x))) THEN {o.lang \o "-rejected"} ELSE {}
    ELSE IF ~ o.read THEN {o.lang \o "-malformed"}
    ELSE CASE o.lang \in {"gr1c", "slugs"} ->
                (IF {o.decl[k] : k \in 1..Len(o.decl)} # {[v |-> k, own |-> x.vars[k].own, bool |-> x.vars[k].bool, lo |-> x.vars[k].lo, hi |-> x.vars[k].hi] : k \in 1..Len(x.vars)}
                    \/ Len(o.decl) # Len(x.vars)
                 THEN {o.lang \o "-declarations"} ELSE {})
                \cup {o.lang \o "-" \o p : p \in {q \in Parts : ~ SamePart(q, x.parts[q], o.parts[q], V)}}
           [] o.lang = "jtlv" ->
                (IF \A w \in Words(V, L), l \in 1..L : Sat(o.g[1], w, l) = Assume(x, w, l) THEN {} ELSE {"jtlv-assumption"})
                \cup (IF \A w \in Words(V, L), l \in 1..L : Sat(o.g[2], w, l) = Guarantee(x, w, l) THEN {} ELSE {"jtlv-guarantee"})
           [] o.lang \in {"wring", "tulip"} ->
                IF \A w \in Words(V, L), l \in 1..L : Sat(o.g[1], w, l) = (Assume(x, w, l) => Guarantee(x, w, l))
                THEN {} ELSE {o.lang \o "-meaning"}

Verdict(x) ==
    LET V == TLCEval(AllStates(x.vars))
    IN UNION {IF x.kind = "formula" THEN JudgeFormula(x, x.out[k], V) ELSE JudgeSpec(x, x.out[k], V) : k \in 1..Len(x.out)}
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
====
