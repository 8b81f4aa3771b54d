----------------------------- MODULE GcovTrace ------------------------------
(* Recorded calls of gcov.h, judged by Gcov.tla.                           *)
EXTENDS Gcov, TraceLib
VARIABLES l, files, cur, ver
tvars == <<l, files, cur, ver>>

NoFile == [name |-> "", mode |-> "", c |-> <<>>, pos |-> 0]

Step(t) ==
  CASE t.e = "Reset" -> files' = [n \in {} |-> <<>>] /\ cur' = NoFile /\ ver' = 2
    [] t.e = "Ver" -> ver' = t.v /\ UNCHANGED <<files, cur>>
    [] t.e = "Open" ->
         /\ t.ok = ((t.mode = "w" /\ t.name # "none/x") \/ t.name \in DOMAIN files)
         /\ cur' = IF ~t.ok THEN NoFile
                   ELSE [name |-> t.name, mode |-> t.mode, pos |-> 0,
                         c |-> IF t.mode = "w" THEN <<>> ELSE files[t.name]]
         /\ UNCHANGED <<files, ver>>
    [] t.e = "Write" ->
         /\ cur.mode = "w"
         /\ cur' = [cur EXCEPT !.c = @ \o Encode(ver, t.k, t.v)]
         /\ UNCHANGED <<files, ver>>
    [] t.e = "Read" ->
         /\ cur.mode = "r"
         /\ LET r == Read(ver, t.k, cur.c, cur.pos)
            IN t.out = r.v /\ cur' = [cur EXCEPT !.pos = r.pos]
         /\ UNCHANGED <<files, ver>>
    [] t.e = "Close" ->
         /\ t.err = (cur.name = "full" /\ cur.c # <<>>)
         /\ cur.mode = "w" /\ cur.name # "full" => t.file = cur.c
         /\ files' = IF cur.mode = "w" /\ cur.name # "full"
                     THEN [n \in DOMAIN files \cup {cur.name} |-> IF n = cur.name THEN cur.c ELSE files[n]]
                     ELSE files
         /\ cur' = NoFile /\ UNCHANGED ver
    [] t.e = "Cut" ->       \* the file loses its end
         /\ files' = [files EXCEPT ![t.name] = SubSeq(@, 1, t.n)]
         /\ UNCHANGED <<cur, ver>>
    [] OTHER -> FALSE
TInit == l = 1 /\ files = [n \in {} |-> <<>>] /\ cur = NoFile /\ ver = 2
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
