------------------------------ MODULE LTLSyntax ------------------------------
(* TuLiP LTL syntax: characters -> tokens -> syntax trees, and printing.       *)
(* doc/specifications.rst: precedence, associativity, spellings.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
NameStart == Letters \cup {"_"}
NameChar == Letters \cup Digits \cup {"_", ".", ":"}
Blank == {" ", "\t", "\n", "\r"}
Low(c) == CASE c = "T" -> "t" [] c = "R" -> "r" [] c = "U" -> "u" [] c = "E" -> "e" [] c = "F" -> "f"
            [] c = "A" -> "a" [] c = "L" -> "l" [] c = "S" -> "s" [] c = "N" -> "n" [] c = "X" -> "x"
            [] c = "W" -> "w" [] c = "Y" -> "y" [] c = "V" -> "v" [] c = "I" -> "i" [] c = "O" -> "o"
            [] c = "G" -> "g" [] c = "K" -> "k" [] c = "P" -> "p" [] c = "M" -> "m" [] c = "Q" -> "q"
            [] c = "D" -> "d" [] OTHER -> c

(* ---- lexical structure: the longest spelling that matches                  *)
Spellings == <<
    <<"<", "<", ">", ">">>, <<"<", "-", ">">>, <<"<", "=", ">">>,
    <<"-", ">">>, <<"=", ">">>, <<"[", "]">>, <<"<", ">">>, <<"&", "&">>, <<"/", "\\">>, <<"|", "|">>, <<"\\", "/">>,
    <<"!", "=">>, <<"/", "=">>, <<"<", "=">>, <<"=", "<">>, <<">", "=">>,
    <<"&">>, <<"|">>, <<"=">>, <<"<">>, <<">">>, <<"^">>, <<"!">>, <<"~">>, <<"(">>, <<")">>, <<",">>, <<"\"">>, <<"'">>,
    <<"+">>, <<"-">>, <<"*">>, <<"/">> >>
Kinds == <<
    "trunc", "<->", "<->",
    "->", "->", "G", "F", "&", "&", "|", "|",
    "!=", "!=", "<=", "<=", ">=",
    "&", "|", "=", "<", ">", "^", "!", "!", "(", ")", ",", "\"", "'",
    "+", "-", "*", "/" >>
Reserved == [next |-> "X", X |-> "X", G |-> "G", F |-> "F", U |-> "U", W |-> "W", V |-> "V", ite |-> "ite"]
(* whole words that stand for operators, whatever their case, when requested  *)
Words == [next |-> "X", always |-> "G", eventually |-> "F", until |-> "U", stronguntil |-> "U", weakuntil |-> "W",
          unless |-> "W", release |-> "V", implies |-> "->", equivalent |-> "<->", not |-> "!", and |-> "&", or |-> "|"]
Str(cs) == FoldLeft(LAMBDA a, b : a \o b, "", cs)
RECURSIVE Span(_, _, _)
Span(cs, k, S) == IF k > Len(cs) \/ cs[k] \notin S THEN k - 1 ELSE Span(cs, k + 1, S)
RECURSIVE LineEnd(_, _)
LineEnd(cs, k) == IF k > Len(cs) \/ cs[k] = "\n" THEN k - 1 ELSE LineEnd(cs, k + 1)
NameKind(cs, full) ==
    LET s == Str(cs) l == Str([k \in 1..Len(cs) |-> Low(cs[k])]) IN
    IF full /\ l \in DOMAIN Words THEN Words[l]
    ELSE IF s \in DOMAIN Reserved THEN Reserved[s]
    ELSE IF l = "true" THEN "True" ELSE IF l = "false" THEN "False" ELSE "name"
Tok(k, v) == [k |-> k, v |-> v]
RECURSIVE Lex(_, _, _)
Lex(cs, k, full) == \* [ok, ts]
    IF k > Len(cs) THEN [ok |-> TRUE, ts |-> <<>>]
    ELSE IF cs[k] \in Blank THEN Lex(cs, k + 1, full)
    ELSE IF cs[k] = "#" THEN Lex(cs, LineEnd(cs, k) + 1, full)
    ELSE LET
        m == IF cs[k] \in NameStart THEN Span(cs, k, NameChar)
             ELSE IF cs[k] \in Digits THEN Span(cs, k, Digits) ELSE 0
        sp == IF m > 0 THEN 0 ELSE
              SelectInSeq(Spellings, LAMBDA s : k + Len(s) - 1 <= Len(cs) /\ SubSeq(cs, k, k + Len(s) - 1) = s)
        t == IF m > 0 THEN LET w == SubSeq(cs, k, m) IN
                  IF cs[k] \in Digits THEN Tok("num", Str(w)) ELSE Tok(NameKind(w, full), Str(w))
             ELSE IF sp > 0 THEN Tok(Kinds[sp], "") ELSE Tok("", "")
        n == IF m > 0 THEN m + 1 ELSE IF sp > 0 THEN k + Len(Spellings[sp]) ELSE 0
        r == IF n = 0 THEN [ok |-> FALSE, ts |-> <<>>] ELSE Lex(cs, n, full)
    IN [ok |-> r.ok, ts |-> <<t>> \o r.ts]

(* ---- precedence, lowest to highest; every binary operator associates left  *)
BinPrec == [x \in {"<->","->","^","|","&","U","W","V","=","!=","<","<=",">",">=","+","-","*","/"} |->
    CASE x = "<->" -> 1 [] x = "->" -> 2 [] x = "^" -> 3 [] x = "|" -> 4 [] x = "&" -> 5
      [] x \in {"U", "W", "V"} -> 7 [] x \in {"=", "!="} -> 8 [] x \in {"<", "<=", ">", ">="} -> 9
      [] x \in {"+", "-"} -> 10 [] x \in {"*", "/"} -> 11]
PrePrec == [x \in {"G", "F", "!", "X"} |-> CASE x \in {"G", "F"} -> 6 [] x = "!" -> 12 [] x = "X" -> 13]
Class(o) == CASE o \in {"=", "!=", "<", "<=", ">", ">="} -> "Comparator"
              [] o \in {"+", "-", "*", "/", "trunc"} -> "Arithmetic"
              [] o = "ite" -> "Operator" [] OTHER -> "Binary"
Leaf(c, v) == [c |-> c, v |-> v, a |-> <<>>]
Node(c, o, a) == [c |-> c, v |-> o, a |-> a]
Fail == [ok |-> FALSE, t |-> Leaf("", ""), n |-> 0]
Yes(t, n) == [ok |-> TRUE, t |-> t, n |-> n]
At(ts, n) == IF n <= Len(ts) THEN ts[n].k ELSE ""
RECURSIVE Expr(_, _, _), Rest(_, _, _)
(* operand starting at token n, whose binary operators have precedence >= least *)
Expr(ts, n, least) ==
    LET k == At(ts, n) IN
    IF k \in DOMAIN PrePrec THEN
        LET r == Expr(ts, n + 1, PrePrec[k]) IN IF r.ok THEN Rest(ts, Yes(Node("Unary", k, <<r.t>>), r.n), least) ELSE Fail
    ELSE IF k = "(" THEN
        IF At(ts, n + 1) = "ite" THEN
            LET a == Expr(ts, n + 2, 0)
                b == IF a.ok /\ At(ts, a.n) = "," THEN Expr(ts, a.n + 1, 0) ELSE Fail
                c == IF b.ok /\ At(ts, b.n) = "," THEN Expr(ts, b.n + 1, 0) ELSE Fail
            IN IF c.ok /\ At(ts, c.n) = ")" THEN Rest(ts, Yes(Node("Operator", "ite", <<a.t, b.t, c.t>>), c.n + 1), least) ELSE Fail
        ELSE LET r == Expr(ts, n + 1, 0)
             IN IF r.ok /\ At(ts, r.n) = ")" THEN Rest(ts, Yes(r.t, r.n + 1), least) ELSE Fail
    ELSE IF k = "num" THEN Rest(ts, Yes(Leaf("Num", ts[n].v), n + 1), least)
    ELSE IF k = "-" THEN IF At(ts, n + 1) = "num" THEN Rest(ts, Yes(Leaf("Num", "-" \o ts[n+1].v), n + 2), least) ELSE Fail
    ELSE IF k = "\"" THEN IF At(ts, n + 1) = "name" /\ At(ts, n + 2) = "\""
                          THEN Rest(ts, Yes(Leaf("Str", ts[n+1].v), n + 3), least) ELSE Fail
    ELSE IF k \in {"True", "False"} THEN Rest(ts, Yes(Leaf("Bool", k), n + 1), least)
    ELSE IF k = "name" THEN Rest(ts, Yes(Leaf("Var", ts[n].v), n + 1), least)
    ELSE Fail
(* what follows an operand: postfix prime binds most tightly *)
Rest(ts, l, least) ==
    LET k == At(ts, l.n) IN
    IF k = "'" THEN Rest(ts, Yes(Node("Unary", "X", <<l.t>>), l.n + 1), least)
    ELSE IF k = "trunc" /\ least = 0 THEN
        IF At(ts, l.n + 1) = "num" THEN Rest(ts, Yes(Node("Arithmetic", "trunc", <<l.t, Leaf("Num", ts[l.n+1].v)>>), l.n + 2), least) ELSE Fail
    ELSE IF k \in DOMAIN BinPrec /\ BinPrec[k] >= least THEN
        LET r == Expr(ts, l.n + 1, BinPrec[k] + 1)
        IN IF r.ok THEN Rest(ts, Yes(Node(Class(k), k, <<l.t, r.t>>), r.n), least) ELSE Fail
    ELSE l
Parse(ts) == LET r == Expr(ts, 1, 0) IN IF r.ok /\ r.n = Len(ts) + 1 THEN r ELSE Fail
Read(cs, full) == LET l == TLCEval(Lex(cs, 1, full)) IN IF l.ok THEN Parse(l.ts) ELSE Fail

(* ---- printing as tokens *)
O(k) == <<Tok(k, "")>>
Neg(v) == v[1] = "-"
RECURSIVE Full(_)
Full(t) ==
    CASE t.c = "Var" -> <<Tok("name", t.v)>>
      [] t.c = "Num" -> <<Tok("num", t.v)>>
      [] t.c = "Bool" -> <<Tok(t.v, t.v)>>
      [] t.c = "Str" -> O("\"") \o <<Tok("name", t.v)>> \o O("\"")
      [] t.c = "Unary" -> O("(") \o O(t.v) \o Full(t.a[1]) \o O(")")
      [] t.c = "Operator" -> O("(") \o O("ite") \o Full(t.a[1]) \o O(",") \o Full(t.a[2]) \o O(",") \o Full(t.a[3]) \o O(")")
      [] OTHER -> O("(") \o Full(t.a[1]) \o O(t.v) \o Full(t.a[2]) \o O(")")
(* with the fewest parentheses: l is the least precedence accepted at this     *)
(* place, r the precedence of the operator that follows                        *)
RECURSIVE Terse(_, _, _)
Terse(t, l, r) ==
    CASE t.c \in {"Var", "Num", "Bool", "Str"} -> Full(t)
      [] t.c = "Operator" -> O("(") \o O("ite") \o Terse(t.a[1], 0, 0) \o O(",") \o Terse(t.a[2], 0, 0)
                             \o O(",") \o Terse(t.a[3], 0, 0) \o O(")")
      [] t.c = "Unary" -> IF r > PrePrec[t.v] THEN O("(") \o Terse(t, 0, 0) \o O(")")
                          ELSE O(t.v) \o Terse(t.a[1], PrePrec[t.v], r)
      [] OTHER -> IF BinPrec[t.v] < l \/ r > BinPrec[t.v] THEN O("(") \o Terse(t, 0, 0) \o O(")")
                  ELSE Terse(t.a[1], BinPrec[t.v], BinPrec[t.v]) \o O(t.v) \o Terse(t.a[2], BinPrec[t.v] + 1, r)
RECURSIVE Size(_)
Size(t) == 1 + FoldLeft(LAMBDA a, b : a + Size(b), 0, t.a)
=============================================================================
