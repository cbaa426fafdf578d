------------------------------- MODULE MathSet -------------------------------
(* Mathematical set containers: two sets, a subset bound to a superset, two    *)
(* power sets (their underlying sets) and a typed dictionary.                  *)
(* Elements are naturals; how an element is spelled in the code (hashable,     *)
(* unhashable, mixed) is not visible here: a set is a set.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NoValue == 0
Keys == 1..4          \* 1, 2: typed; 3: declared with any value; 4: undeclared
Start(cfg) == [s |-> [a |-> {}, b |-> {}, sub |-> {}, p |-> {}, q |-> {}],
               sup |-> Range(cfg.sup),
               typ |-> <<Range(cfg.typ1), Range(cfg.typ2)>>,
               d |-> <<NoValue, NoValue, NoValue, NoValue>>]
SetNames == {"a", "b", "sub", "p", "q"}

Ok(st, v) == [ok |-> TRUE, st |-> st, v |-> v]
Err(st) == [ok |-> FALSE, st |-> st, v |-> {}]
Guard(st, x, es) == x # "sub" \/ es \subseteq st.sup
Typed(st, k, v) == k \notin {1, 2} \/ v \in st.typ[k]
(* the last pair for a key wins *)
RECURSIVE Assign(_, _)
Assign(d, kvs) == IF kvs = <<>> THEN d
                  ELSE Assign([d EXCEPT ![Head(kvs)[1]] = Head(kvs)[2]], Tail(kvs))
LastPairs(kvs) == {kvs[n] : n \in {m \in 1..Len(kvs) : \A j \in m+1..Len(kvs) : kvs[j][1] # kvs[m][1]}}

(* State changes.  `o.es` is the argument's sequence of elements.              *)
Step(st, o) ==
    LET es == Range(o.es) IN
    CASE o.op \in {"add", "addfrom", "ior", "update"} ->
            IF Guard(st, o.x, es) THEN Ok([st EXCEPT !.s[o.x] = @ \cup es], {}) ELSE Err(st)
      [] o.op = "remove" ->
            IF es \subseteq st.s[o.x] THEN Ok([st EXCEPT !.s[o.x] = @ \ es], {}) ELSE Err(st)
      [] o.op = "isub" -> Ok([st EXCEPT !.s[o.x] = @ \ es], {})
      [] o.op = "iorset" ->      \* in-place union with another container
            IF Guard(st, o.x, st.s[o.y]) THEN Ok([st EXCEPT !.s[o.x] = @ \cup st.s[o.y]], {}) ELSE Err(st)
      [] o.op = "isubset" -> Ok([st EXCEPT !.s[o.x] = @ \ st.s[o.y]], {})
      \* new sets, assigned to x
      [] o.op = "union" -> Ok([st EXCEPT !.s[o.x] = st.s[o.y] \cup st.s[o.z]], {})
      [] o.op = "minus" -> Ok([st EXCEPT !.s[o.x] = st.s[o.y] \ st.s[o.z]], {})
      [] o.op = "inter" -> Ok([st EXCEPT !.s[o.x] = st.s[o.y] \cap st.s[o.z]], {})
      [] o.op = "copy" -> Ok([st EXCEPT !.s[o.x] = st.s[o.y]], {})
      [] o.op = "padd" -> Ok([st EXCEPT !.s["p"] = st.s["p"] \cup st.s["q"]], {})
      \* the popped element is part of the observation
      [] o.op = "pop" ->
            IF st.s[o.x] = {} THEN Err(st)
            ELSE IF Cardinality(es) = 1 /\ es \subseteq st.s[o.x]
            THEN Ok([st EXCEPT !.s[o.x] = @ \ es], {})
            ELSE [ok |-> TRUE, st |-> st, v |-> {"popped a non-element"}]
      [] o.op = "mksub" -> IF es \subseteq st.sup THEN Ok([st EXCEPT !.s["sub"] = es], {}) ELSE Err(st)
      [] o.op = "supadd" -> Ok([st EXCEPT !.sup = @ \cup es], {})
      \* typed dictionary
      [] o.op \in {"dset", "dupd"} ->
            IF \A kv \in LastPairs(o.kvs) : Typed(st, kv[1], kv[2])
            THEN Ok([st EXCEPT !.d = Assign(@, o.kvs)], {}) ELSE Err(st)
      [] o.op = "dsetdefault" ->
            LET kv == o.kvs[1] IN
            IF st.d[kv[1]] # NoValue THEN Ok(st, {})
            ELSE IF Typed(st, kv[1], kv[2]) THEN Ok([st EXCEPT !.d = Assign(@, o.kvs)], {}) ELSE Err(st)
      [] o.op = "ddel" ->
            LET k == o.kvs[1][1] IN
            IF st.d[k] = NoValue THEN Err(st) ELSE Ok([st EXCEPT !.d[k] = NoValue], {})
      [] o.op = "dtype" -> Ok([st EXCEPT !.typ = <<es, @[2]>>], {})
      [] OTHER -> Ok(st, {})

(* Values of queries, as sets / numbers / truth values.                        *)
Query(st, q) ==
    CASE q.q = "eq" -> st.s[q.x] = st.s[q.y]
      [] q.q = "peq" -> st.s["p"] = st.s["q"]
      [] q.q = "intersects" -> st.s[q.x] \cap Range(q.es) # {}
      [] q.q = "product" -> {<<v, w>> : v \in st.s[q.x], w \in st.s[q.y]}
      [] q.q = "pin" -> Range(q.es) \subseteq st.s["p"]
      [] q.q = "psets" -> SUBSET st.s["p"]
      [] q.q = "plen" -> 2 ^ Cardinality(st.s["p"])
      [] q.q = "cart" -> Len(q.es) = Len(q.xs) /\ \A n \in 1..Len(q.es) : q.es[n] \in st.s[q.xs[n]]
      [] q.q = "unique" -> Range(q.es)
      [] q.q = "multiple" -> Len(q.es) # Cardinality(Range(q.es))
      [] q.q = "subseteq" -> Range(q.es) \subseteq Range(q.fs)
      [] q.q = "sameelems" ->   \* as multisets
            \A e \in Range(q.es) \cup Range(q.fs) :
                Cardinality({n \in 1..Len(q.es) : q.es[n] = e}) = Cardinality({n \in 1..Len(q.fs) : q.fs[n] = e})
      [] q.q = "dtypes" -> \A k \in {1, 2} : st.d[k] = NoValue \/ st.d[k] \in st.typ[k]

(* Guarantees. *)
SubsetGuard(st) == st.s["sub"] \subseteq st.sup
=============================================================================
