---- MODULE FuncTableMC ----
EXTENDS FuncTable, TLC, Json
CONSTANTS NK, NO, Depth
VARIABLES tbl, map, hist
KeySet == {<<k>> : k \in 0..NK-1}
OutSet == {<<k>> : k \in 0..NO-1}
EmptyMap == [k \in {} |-> <<0>>]
Init == tbl = EmptyTable /\ map = EmptyMap /\ hist = << >>
Add(key, out) ==
    /\ tbl' = AddEntry(tbl, key, out, << >>)
    \* independent formulation: update of a finite function
    /\ map' = [k \in DOMAIN map \cup {key} |-> IF k = key THEN out ELSE map[k]]
    /\ hist' = Append(hist, [op |-> "add", key |-> key, out |-> out])
Get(key) ==
    /\ UNCHANGED <<tbl, map>>
    /\ hist' = Append(hist, [op |-> "get", key |-> key, out |-> << >>])
Next == /\ Len(hist) < Depth
        /\ \E key \in KeySet : Get(key) \/ \E out \in OutSet : Add(key, out)
Agree == Denote(tbl) = map
Unique == UniqueKeys(tbl)
LastWins == \A key \in KeySet :
    LET adds == {k \in 1..Len(hist) : hist[k].op = "add" /\ hist[k].key = key} IN
    IF adds = {} THEN key \notin Keys(tbl)
    ELSE LET m == CHOOSE k \in adds : \A j \in adds : j <= k IN
         Denote(tbl)[key] = hist[m].out
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
====
