--------------------------------- MODULE Pipe --------------------------------
(* A run of the Propeller generator from options to files: what it refuses,   *)
(* which recordings it reads, what it leaves, and who is told.                *)
(* o: [api, type, files, dep, bin, http, mod, built]                           *)
(*   api   0: options alone, 1: with recordings and a type, 2: the computer    *)
(*   files the recordings, dep those given by the deprecated option: each      *)
(*         [type, state ("ok", "bad", "gone"), maps: it shows the binary]      *)
(*   bin   the binary is readable;  mod: module names are asked for and there  *)
(*   is no debug information;  built: the branches make a graph                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
St == INSTANCE Status

Kind(t) == IF t = "-" THEN "LBR" ELSE t
Kinds(o) == IF o.api = 1 THEN {o.type} ELSE {Kind(o.files[i].type) : i \in DOMAIN o.files}
Refused(o) == CASE o.api = 0 -> o.dep # << >> \/ Cardinality(Kinds(o)) # 1 \/ ~(Kinds(o) \subseteq {"LBR", "SPE"})
                [] o.api = 1 -> ~(Kinds(o) \subseteq {"LBR", "SPE"})
                [] OTHER -> ~(Kinds(o) \subseteq {"LBR"})
Read(o) == IF o.api = 2 THEN o.dep \o o.files ELSE o.files
Used(o) == LET q == Read(o) IN {i \in DOMAIN q : q[i].state = "ok" /\ q[i].maps}
(* A recording that cannot be opened ends the run; one that is not a          *)
(* recording, or not of this binary, is passed over.                          *)
Usable(o) == Used(o) # {} /\ \A i \in DOMAIN Read(o) : Read(o)[i].state # "gone"
Succeeds(o) == ~Refused(o) /\ o.bin /\ Usable(o) /\ ~o.mod /\ o.built
Watched(o) == o.http /\ ~Refused(o) /\ o.api # 2
(* Reading the binary, mapping, layout, writing.                              *)
Weights == <<10, 500, 50, 1>>
Reached(o) == IF Refused(o) \/ ~o.bin THEN <<0, 0, 0, 0>>
              ELSE IF ~Usable(o) THEN <<100, 0, 0, 0>>
              ELSE IF o.mod \/ ~o.built THEN <<100, 60, 0, 0>>
              ELSE <<100, 100, 100, 100>>
Percent(parts) ==
  LET N == [x \in 0 .. 4 |-> IF x = 0 THEN [St!Group("") EXCEPT !.parts = [i \in 1 .. 4 |-> <<Weights[i], i>>]]
                             ELSE [St!Leaf("") EXCEPT !.p = parts[x]]]
  IN St!Progress(N, 0)

=============================================================================
