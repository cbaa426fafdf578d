---- MODULE FuncTable ----
(* A table from (state, further inputs) to outputs: tulip.transys.mathfunc.FunctionOnLabeledState.  *)
(* A table is a sequence of entries [key, out, lab], in order of first insertion, unique keys.       *)
EXTENDS Integers, Sequences, FiniteSets

EmptyTable == << >>

Keys(t) == {t[k].key : k \in 1..Len(t)}

Pos(t, key) == CHOOSE k \in 1..Len(t) : t[k].key = key

\* add: overwrite the entry with the same key, otherwise append
AddEntry(t, key, out, lab) ==
    IF key \in Keys(t)
    THEN [t EXCEPT ![Pos(t, key)] = [key |-> key, out |-> out, lab |-> lab]]
    ELSE Append(t, [key |-> key, out |-> out, lab |-> lab])

Apply(t, o) ==
    IF o.op = "add" THEN AddEntry(t, o.key, o.out, o.lab) ELSE t

\* what a caller observes of operation `o` in table `t`; `tsl` is the labelling of the transition
\* system handed to "save_ts" (a sequence indexed by state + 1)
Expected(t, o, tsl, sidx) ==
    CASE o.op = "add" -> [t |-> "ok"]
      [] o.op = "get" -> IF o.key \in Keys(t)
                         THEN [t |-> "val", out |-> t[Pos(t, o.key)].out]
                         ELSE [t |-> "absent"]
      [] o.op = "len" -> [t |-> "n", n |-> Len(t)]
      [] o.op = "save" -> [t |-> "pairs",
            pairs |-> [k \in 1..Len(t) |-> [key |-> t[k].key, out |-> t[k].out, lab |-> t[k].lab]]]
      [] o.op = "save_ts" -> [t |-> "pairs",
            pairs |-> [k \in 1..Len(t) |->
                [key |-> t[k].key, out |-> t[k].out, lab |-> tsl[t[k].key[sidx] + 1]]]]

\* the abstract map denoted by a table
Denote(t) == [key \in Keys(t) |-> t[Pos(t, key)].out]
UniqueKeys(t) == \A j, k \in 1..Len(t) : j # k => t[j].key # t[k].key
====
