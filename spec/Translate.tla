---- MODULE Translate ----
(* Languages that formulas are translated to: what each can express, and small formulas to translate. *)
EXTENDS LTLSem

Basic == {"true", "false", "var", "not", "and", "or", "imp", "iff"}
Compare == {"lit", "eq", "neq", "lt", "le", "gt", "ge"}
Temporal == {"always", "eventually", "until", "release", "weak"}
Supported(lang) ==
    CASE lang = "gr1c"    -> Basic \cup Compare \cup {"next", "always", "eventually"}
      [] lang = "slugs"   -> Basic \cup Compare \cup {"next", "add", "sub"}
      [] lang = "jtlv"    -> Basic \cup Compare \cup {"next", "always", "eventually", "until"}
      [] lang = "promela" -> Basic \cup Compare \cup Temporal \cup {"next", "add", "sub", "mul", "xor"}
      [] lang = "smv"     -> Basic \cup Compare \cup (Temporal \ {"weak"}) \cup {"next", "add", "sub", "mul", "xor"}
      [] lang = "wring"   -> Basic \cup (Temporal \ {"weak"}) \cup {"next", "xor"}
      [] lang = "python"  -> Basic \cup Compare \cup {"add", "sub", "mul", "xor"}

RECURSIVE OpsOf(_), Depths(_, _), NestedNext(_, _), CompareOk(_)
Args(f) == IF "a" \in DOMAIN f THEN f.a ELSE << >>
OpsOf(f) == {f.op} \cup UNION {OpsOf(Args(f)[k]) : k \in 1..Len(Args(f))}
\* numbers of "next" above each variable
Depths(f, n) ==
    IF f.op = "var" THEN {n}
    ELSE UNION {Depths(Args(f)[k], IF f.op = "next" THEN n + 1 ELSE n) : k \in 1..Len(Args(f))}
NestedNext(f, inside) ==
    \/ f.op = "next" /\ inside
    \/ \E k \in 1..Len(Args(f)) : NestedNext(Args(f)[k], inside \/ f.op = "next")
\* no comparison refers to two different states
CompareOk(f) ==
    IF f.op \in Compare THEN Cardinality(Depths(f, 0)) <= 1
    ELSE \A k \in 1..Len(Args(f)) : CompareOk(Args(f)[k])
Expressible(f, lang) ==
    /\ OpsOf(f) \subseteq Supported(lang)
    /\ lang \in {"gr1c", "slugs"} => ~ NestedNext(f, FALSE)
    /\ lang \in {"promela", "smv"} => CompareOk(f)
====
