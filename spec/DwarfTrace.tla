----------------------------- MODULE DwarfTrace -----------------------------
(* The answers of the symbolisers, judged by Dwarf.tla.                    *)
EXTENDS Dwarf, TraceLib
VARIABLES l, db
tvars == <<l, db>>
Step(t) ==
  CASE t.e = "Reset" -> db' = [none |-> TRUE]
    [] t.e = "Open" -> t.ok /\ db' = [files |-> t.files, comps |-> t.comps, seqs |-> t.seqs, dies |-> t.dies]
    [] t.e = "Look" -> /\ Len(t.out) = Len(t.as)
                       /\ \A i \in DOMAIN t.as : Resolves(db, t.rd, t.as[i], t.out[i])
                       /\ UNCHANGED db
    [] OTHER -> FALSE
TInit == l = 1 /\ db = [none |-> TRUE]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
