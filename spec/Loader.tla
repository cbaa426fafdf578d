------------------------------- MODULE Loader --------------------------------
(* What the text that a tool prints describes: the automaton that loading    *)
(* the text should give.  Documents are records (the abstract syntax of the  *)
(* text); a loaded automaton is a record of sets.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(q) == {q[k] : k \in DOMAIN q}
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

-------------------------------------------------------------------------------
(* Strategies of gr1c (JSON, XML): d.vars = sequence of <<name, type>>,       *)
(* d.nodes = sequence of [id, vals, note, init, next]; vals in order of vars. *)
Valuation(vars, vals) == {<<vars[k][1], vals[k]>> : k \in DOMAIN vars}
Strategy(d) ==
    [nodes |-> {<<x.id, Valuation(d.vars, x.vals), x.note>> : x \in Range(d.nodes)},
     edges |-> UNION {{<<x.id, y>> : y \in Range(x.next)} : x \in Range(d.nodes)},
     init |-> {x.id : x \in {y \in Range(d.nodes) : y.init}},
     vars |-> Range(d.vars)]

-------------------------------------------------------------------------------
(* Strategies of slugs: integers are bitfields.  d.ints = sequence of         *)
(* <<name, width>> (width 0: Boolean); d.bits = sequence of <<name, k>>, the  *)
(* order of bits in states; nodes = sequence of [id, bits, next].             *)
RECURSIVE SumBits(_, _, _)
SumBits(b, name, S) ==
    IF S = {} THEN 0
    ELSE LET k == CHOOSE k \in S : TRUE IN b[k][2] * Pow2(b[k][1]) + SumBits(b, name, S \ {k})
\* value of variable `name` where vals lists the bits in the order of `order`
Decode(order, vals, name) ==
    LET S == {k \in DOMAIN order : order[k][1] = name}
    IN SumBits([k \in S |-> <<order[k][2], vals[k]>>], name, S)
Encode(order, value) == [k \in DOMAIN order |-> (value[order[k][1]] \div Pow2(order[k][2])) % 2]
BitStrategy(d) ==
    [nodes |-> {<<x.id, {<<v, Decode(d.bits, x.bits, v)>> : v \in Range(d.ints)}>> : x \in Range(d.nodes)},
     edges |-> UNION {{<<x.id, y>> : y \in Range(x.next)} : x \in Range(d.nodes)}]

-------------------------------------------------------------------------------
(* Never claims of ltl2ba: d.states = sequence of [name, init, acc, kind,     *)
(* opts], kind in {"if", "skip", "false"}, opts = sequence of <<guard, target>>*)
(* A guard is a disjunction (set) of conjunctions of literals <<x, sign>>.    *)
Sat(guard, props) == {val \in SUBSET props : \E c \in Range(guard) : \A l \in Range(c) : (l[1] \in val) = (l[2] = 1)}
Mentioned(d) == UNION {UNION {UNION {{l[1] : l \in Range(c)} : c \in Range(o[1])} : o \in Range(s.opts)} : s \in Range(d.states)}
Moves(d) == UNION {
    IF s.kind = "skip" THEN {<<s.name, SUBSET Mentioned(d), s.name>>}
    ELSE {<<s.name, Sat(o[1], Mentioned(d)), o[2]>> : o \in Range(s.opts)} : s \in Range(d.states)}
Claim(d) ==
    [nodes |-> {s.name : s \in Range(d.states)},
     init |-> {s.name : s \in {x \in Range(d.states) : x.init}},
     acc |-> {s.name : s \in {x \in Range(d.states) : x.acc}},
     props |-> Mentioned(d),
     edges |-> Moves(d)]

-------------------------------------------------------------------------------
(* Games of Lily: d.sys = sequence of [name, init, outs, env] (env: the node  *)
(* where the environment moves, or a system node when inputs do not matter),  *)
(* d.env = sequence of <<env node, inputs, system node>>.                     *)
Moore(d) ==
    [nodes |-> {<<s.name, Range(s.outs)>> : s \in Range(d.sys)},
     init |-> {s.name : s \in {x \in Range(d.sys) : x.init}},
     edges |-> UNION {
        IF s.env \in {x.name : x \in Range(d.sys)} THEN {<<s.name, {}, s.env>>}
        ELSE {<<s.name, Range(e[2]), e[3]>> : e \in {x \in Range(d.env) : x[1] = s.env}} : s \in Range(d.sys)}]

-------------------------------------------------------------------------------
(* Interactive sessions with gr1c.  A command is [op, state, move, goal]:     *)
(* values are given by variable, and sent in the order env, sys.              *)
Vector(names, val) == [k \in DOMAIN names |-> val[names[k]]]
Line(env, sys, c) ==
    LET st == Vector(env \o sys, c.state)
        mv == Vector(env, c.move) IN
    CASE c.op = "winning" -> <<"winning">> \o st
      [] c.op = "getindex" -> <<"getindex">> \o st \o <<c.goal>>
      [] c.op = "envnext" -> <<"envnext">> \o st
      [] c.op = "sysnext" -> <<"sysnext">> \o st \o mv \o <<c.goal>>
      [] c.op = "sysnexta" -> <<"sysnexta">> \o st \o mv
      [] OTHER -> <<c.op>>
\* commands that are sent: goals are checked first
Sent(env, sys, c) == (IF c.op \in {"getindex", "sysnext"} THEN << <<"numgoals">> >> ELSE <<>>) \o << Line(env, sys, c) >>
RECURSIVE AllSent(_, _, _, _)
AllSent(env, sys, cs, k) == IF k > Len(cs) THEN <<>> ELSE Sent(env, sys, cs[k]) \o AllSent(env, sys, cs, k + 1)
\* lines of values are valuations of variables, in order
Answer(env, sys, c, reply) ==
    LET names == IF c.op = "envnext" THEN env ELSE sys
    IN IF c.op \in {"envnext", "sysnext", "sysnexta"}
       THEN [k \in DOMAIN reply |-> {<<names[j], reply[k][j]>> : j \in DOMAIN names}]
       ELSE reply
==============================================================================
