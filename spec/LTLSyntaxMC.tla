---------------------------- MODULE LTLSyntaxMC ----------------------------
(* All syntax trees with at most N operators of one of each precedence class: *)
(* both printers are inverse to reading; and all short token sequences.        *)
EXTENDS LTLSyntax, Json
CONSTANTS N, L, EmitSize
VARIABLE x
Bins == {"<->", "->", "^", "|", "&", "U", "=", "<=", "+", "*"}
Pres == {"G", "!", "X"}
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN {Leaf("Var", "a")}
            ELSE {Node("Unary", o, <<t>>) : o \in Pres, t \in Trees(n - 1)}
                 \cup UNION {{Node(Class(o), o, <<s, t>>) : o \in Bins, s \in Trees(i), t \in Trees(n - 1 - i)} : i \in 0..n-1}
Toks == {Tok("name", "a"), Tok("num", "1")} \cup {Tok(k, "") : k \in {"<->", "->", "|", "G", "U", "=", "-", "!", "X", "'", "(", ")", ",", "ite", "\""}}
Init == \/ \E n \in 0..N : \E t \in Trees(n) : x = [kind |-> "tree", t |-> t, n |-> n]
        \/ \E n \in 0..L : \E ts \in [1..n -> Toks] : x = [kind |-> "toks", t |-> ts, n |-> n]
Next == UNCHANGED x
TreesOk == x.kind = "tree" =>
    /\ Parse(Full(x.t)) = Yes(x.t, Len(Full(x.t)) + 1)
    /\ Parse(Terse(x.t, 0, 0)).t = x.t /\ Parse(Terse(x.t, 0, 0)).ok
    /\ Len(Terse(x.t, 0, 0)) <= Len(Full(x.t))
(* an accepted sequence has one reading, which its printed forms keep *)
Terminals(ts) == SelectSeq(ts, LAMBDA t : t.k \in {"name", "num"})
ToksOk == x.kind = "toks" => LET r == Parse(x.t) IN
    r.ok => /\ Parse(Full(r.t)).t = r.t
            /\ Parse(Terse(r.t, 0, 0)).t = r.t
            /\ Len(Terse(r.t, 0, 0)) <= Len(x.t) + 0
Emit == \/ x.kind = "tree" /\ x.n > EmitSize
        \/ PrintT("@@" \o ToJson(IF x.kind = "tree" THEN [ts |-> [k \in 1..Len(Terse(x.t, 0, 0)) |-> Terse(x.t, 0, 0)[k].k], n |-> x.n]
                                 ELSE [ts |-> [k \in 1..Len(x.t) |-> x.t[k].k], n |-> -1]))
=============================================================================
