------------------------------- MODULE Hybrid -------------------------------
(* Models of hybrid systems: which data are accepted, what is stored, and   *)
(* how time data propagate from a model to its parts.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Elems(s) == {s[k] : k \in 1..Len(s)}

(* ------------------------------ time data ------------------------------ *)
\* sem: "none" (omitted), "sampled", "discrete", or another string
\* step: 0 (omitted), or a number
TimeOk(sem, step) ==
    /\ sem \in {"none", "sampled", "discrete"}
    /\ sem = "discrete" => step = 0
    /\ step >= 0
Time(o) == <<o.sem, o.step>>

(* the machine of constructors: `objs` is the sequence of models that exist, *)
(* each with the indices of its parts in `subs`                              *)
RECURSIVE Parts(_, _)
Parts(objs, k) == {k} \union UNION {Parts(objs, j) : j \in Elems(objs[k].subs)}
Below(objs, subs) == UNION {Parts(objs, j) : j \in Elems(subs)}
Accepts(objs, op) ==
    /\ TimeOk(op.sem, op.step)
    /\ ~ op.overwrite => \A j \in Elems(op.subs) : Time(objs[j]) = <<op.sem, op.step>>
Create(objs, op) ==
    IF ~ Accepts(objs, op) THEN objs
    ELSE Append(
        [k \in 1..Len(objs) |->
            IF op.overwrite /\ k \in Below(objs, op.subs)
            THEN [objs[k] EXCEPT !.sem = op.sem, !.step = op.step]
            ELSE objs[k]],
        [kind |-> op.kind, sem |-> op.sem, step |-> op.step, subs |-> op.subs])
\* a part of a part that has been overwritten by another owner: what the
\* check of consistency demands of it is not documented
Obscure(objs, op) ==
    /\ ~ op.overwrite /\ Accepts(objs, op)
    /\ \E j \in Below(objs, op.subs) : Time(objs[j]) # <<op.sem, op.step>>

(* ------------------------- linear affine systems ------------------------ *)
\* an array that is given: [given |-> TRUE, shape |-> sequence, vals |-> rows]
Rank2(x) == Len(x.shape) = 2
Rows(x) == x.shape[1]
Cols(x) == x.shape[2]
\* a set that is given: [given, dim, kind], where kind is "polytope", "region", "other"
LtiOk(r) ==
    LET n == Rows(r.A) IN
    /\ Rank2(r.A) /\ Rows(r.A) = Cols(r.A)
    /\ r.domain.given => r.domain.kind \in {"polytope", "region"} /\ r.domain.dim = n
    /\ r.Uset.given => r.Uset.kind = "polytope"
    /\ r.B.given => /\ Rank2(r.B) /\ Rows(r.B) = n
                    /\ r.Uset.given => r.Uset.dim \in {Cols(r.B), Cols(r.B) + n}
    /\ r.E.given => /\ Rank2(r.E) /\ Rows(r.E) = n
                    /\ r.Wset.given => r.Wset.dim = Cols(r.E)
    /\ r.K.given => Rank2(r.K) /\ Rows(r.K) = n /\ Cols(r.K) = 1
    /\ TimeOk(r.sem, r.step)
Zeros(n) == [k \in 1..n |-> <<0>>]
Same(x, got) == got.given = x.given /\ (x.given => got.vals = x.vals)
\* what is stored, with defaults of what is omitted
LtiStored(r, got) ==
    LET n == Rows(r.A) IN
    /\ Same(r.A, got.A) /\ Same(r.B, got.B)
    /\ IF r.K.given THEN Same(r.K, got.K) ELSE got.K.given /\ got.K.vals = Zeros(n)
    /\ IF r.E.given THEN Same(r.E, got.E) /\ got.Wset = (IF r.Wset.given THEN "same" ELSE "none")
                    ELSE got.E.given /\ got.E.vals = Zeros(n) /\ got.Wset = "empty"
    /\ got.Uset = (IF r.Uset.given THEN "same" ELSE "none")
    /\ got.domain = (IF r.domain.given THEN "same" ELSE "none")
    /\ <<got.sem, got.step>> = <<r.sem, r.step>>

(* ------------------------ piecewise-affine systems ----------------------- *)
\* domains are sets of unit cells; a system without B has input dimension 0
PwaOk(r) ==
    /\ r.domain.given \/ r.subs = <<>>
    /\ r.domain.given => r.domain.kind \in {"polytope", "region"}
    /\ Elems(r.domain.cells) \subseteq UNION {Elems(r.subs[j].cells) : j \in 1..Len(r.subs)}
       \/ r.subs = <<>>
    /\ \A j, k \in 1..Len(r.subs) : j # k =>
        /\ Elems(r.subs[j].cells) \cap Elems(r.subs[k].cells) = {}
        /\ r.subs[j].dims = r.subs[k].dims

(* ---------------------------- switched systems --------------------------- *)
LabelsOf(n, labels) == IF labels = <<"default">> THEN {ToString(k) : k \in 0..(n - 1)} ELSE Elems(labels)
LabelsOk(n, labels) == labels = <<"default">> \/ Len(labels) = n
ModesOf(r) == LabelsOf(r.nenv, r.env) \X LabelsOf(r.nsys, r.sys)
SwitchedOk(r) ==
    /\ LabelsOk(r.nenv, r.env) /\ LabelsOk(r.nsys, r.sys)
    /\ r.space \in {"none", "polytope", "region"}
    /\ \A k \in 1..Len(r.keys) : <<r.keys[k][1], r.keys[k][2]>> \in ModesOf(r)
    /\ \A k \in 1..Len(r.kinds) : r.kinds[k] = "pwa"
SwitchedStored(r, got) ==
    /\ {<<got.modes[k][1], got.modes[k][2]>> : k \in 1..Len(got.modes)} = {<<r.keys[k][1], r.keys[k][2]>> : k \in 1..Len(r.keys)}
    /\ Len(got.modes) = Len(r.keys)
    /\ {<<got.combs[k][1], got.combs[k][2]>> : k \in 1..Len(got.combs)} = ModesOf(r)
    /\ Len(got.combs) = r.nenv * r.nsys
    /\ got.same
    /\ Elems(got.env) = LabelsOf(r.nenv, r.env) /\ Len(got.env) = r.nenv
    /\ Elems(got.sys) = LabelsOf(r.nsys, r.sys) /\ Len(got.sys) = r.nsys
=============================================================================
