------------------------------ MODULE LoaderMC -------------------------------
(* A session: the server prints a prompt, reads a command, and prints lines;  *)
(* the client writes a command, then reads one line or all lines up to the    *)
(* mark.  Prompts are prefixes of the next line.  The client reads exactly    *)
(* the lines of its command.  Initial states also range over valuations of    *)
(* bitfields.                                                                 *)
EXTENDS Loader
CONSTANTS Depth, MaxLines
VARIABLES phase, out, hist, want, got, n, bits
vars == <<phase, out, hist, want, got, n, bits>>
Prompt == <<0, 1>>
Mark == <<0, 0>>
Order == << <<"a", 1>>, <<"b", 0>>, <<"a", 0>>, <<"c", 0>>, <<"a", 2>> >>
Init == /\ phase = "server" /\ out = <<Prompt>> /\ hist = <<>> /\ want = <<>> /\ got = <<>> /\ n = 0
        /\ bits \in [1..5 -> 0..1]
\* a command of the client, and the lines that answer it
Command == /\ phase = "server" /\ Len(hist) < Depth
           /\ \E kind \in {"one", "many"} : \E k \in (IF kind = "one" THEN {1} ELSE 0..MaxLines) :
                 /\ hist' = Append(hist, kind)
                 /\ want' = [j \in 1..k |-> <<Len(hist) + 1, j>>]
                 /\ out' = out \o want' \o (IF kind = "many" THEN <<Mark>> ELSE <<>>) \o <<Prompt>>
                 /\ got' = <<>> /\ phase' = "client"
           /\ UNCHANGED <<n, bits>>
\* a line is what follows the prompt
Text(q) == IF Head(q) = Prompt THEN Tail(q) ELSE q
Read == /\ phase = "client" /\ Text(out) # <<>>
        /\ LET line == Head(Text(out)) IN
           /\ out' = Tail(Text(out))
           /\ IF hist[Len(hist)] = "one" THEN got' = <<line>> /\ phase' = "server"
              ELSE IF line = Mark THEN phase' = "server" /\ got' = got
              ELSE got' = Append(got, line) /\ phase' = "client"
        /\ UNCHANGED <<hist, want, n, bits>>
Next == Command \/ Read
InStep == phase = "server" => got = want /\ out = <<Prompt>>
NotStuck == phase = "client" => ENABLED Read
\* decoding of bitfields is a bijection
Bits == LET v == [x \in {"a", "b", "c"} |-> Decode(Order, bits, x)] IN
        /\ v["a"] \in 0..7 /\ v["b"] \in 0..1 /\ v["c"] \in 0..1
        /\ Encode(Order, v) = bits
==============================================================================
