---- MODULE Formula ----
(* Semantics of formulas over a pair of consecutive states.                                   *)
(* A formula is a record [op, ...]; variables are numbered, and a state is a sequence of ints: *)
(* Booleans are 0 and 1, an enumerated value is its position in the declared list.             *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE EvalI(_, _, _), EvalB(_, _, _)

\* integer-valued terms
EvalI(f, s, t) ==
    CASE f.op = "var"  -> s[f.v]
      [] f.op = "lit"  -> f.n
      [] f.op = "next" -> EvalI(f.a[1], t, t)
      [] f.op = "add"  -> EvalI(f.a[1], s, t) + EvalI(f.a[2], s, t)
      [] f.op = "sub"  -> EvalI(f.a[1], s, t) - EvalI(f.a[2], s, t)
      [] f.op = "mul"  -> EvalI(f.a[1], s, t) * EvalI(f.a[2], s, t)

\* formulas: `s` is the current and `t` the next state
EvalB(f, s, t) ==
    CASE f.op = "var"   -> s[f.v] = 1
      [] f.op = "true"  -> TRUE
      [] f.op = "false" -> FALSE
      [] f.op = "not"   -> ~ EvalB(f.a[1], s, t)
      [] f.op = "and"   -> EvalB(f.a[1], s, t) /\ EvalB(f.a[2], s, t)
      [] f.op = "or"    -> EvalB(f.a[1], s, t) \/ EvalB(f.a[2], s, t)
      [] f.op = "xor"   -> EvalB(f.a[1], s, t) # EvalB(f.a[2], s, t)
      [] f.op = "imp"   -> EvalB(f.a[1], s, t) => EvalB(f.a[2], s, t)
      [] f.op = "iff"   -> EvalB(f.a[1], s, t) <=> EvalB(f.a[2], s, t)
      [] f.op = "ite"   -> IF EvalB(f.a[1], s, t) THEN EvalB(f.a[2], s, t) ELSE EvalB(f.a[3], s, t)
      [] f.op = "next"  -> EvalB(f.a[1], t, t)
      [] f.op = "eq"    -> EvalI(f.a[1], s, t) = EvalI(f.a[2], s, t)
      [] f.op = "neq"   -> EvalI(f.a[1], s, t) # EvalI(f.a[2], s, t)
      [] f.op = "lt"    -> EvalI(f.a[1], s, t) < EvalI(f.a[2], s, t)
      [] f.op = "le"    -> EvalI(f.a[1], s, t) <= EvalI(f.a[2], s, t)
      [] f.op = "gt"    -> EvalI(f.a[1], s, t) > EvalI(f.a[2], s, t)
      [] f.op = "ge"    -> EvalI(f.a[1], s, t) >= EvalI(f.a[2], s, t)

AllB(fs, s, t) == \A k \in 1..Len(fs) : EvalB(fs[k], s, t)
====
