--------------------------- MODULE LTLSyntaxTrace ---------------------------
(* Texts given to the parser, with the trees and printed texts it produced.    *)
EXTENDS LTLSyntax, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Verdict(x) ==
    LET r == TLCEval(Read(x.text, x.full))
    IN IF ~r.ok THEN IF x.ok THEN {"malformed-text-accepted"} ELSE {}
       ELSE IF ~x.ok THEN {"text-rejected"}
       ELSE (IF x.tree # r.t THEN {"tree"} ELSE {})
            \cup (IF x.size # Size(r.t) THEN {"size"} ELSE {})
            \cup (IF ~x.print THEN {} ELSE IF ~x.reok THEN {"printed-text-rejected"} ELSE
                  (IF x.retree # r.t THEN {"reparsed-tree"} ELSE {})
                  \cup (IF LET f == Read(x.flat, FALSE) IN ~(f.ok /\ f.t = r.t) THEN {"printed-text"} ELSE {}))
Init == i \in 1..Len(Recs) /\ bad = Verdict(Recs[i])
Next == FALSE /\ UNCHANGED <<i, bad>>
Report == bad = {} \/ PrintT("@@" \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
