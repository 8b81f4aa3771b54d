------------------------------- MODULE S05Trace ------------------------------
EXTENDS S05, TraceLib
VARIABLES l
tvars == <<bin, maps, l>>
(* A binary file as made: header type, program headers, note sections.       *)
Exec(ph) == SelectSeq(ph, LAMBDA p : p.type = 1 /\ p.x)
BidOf(notes) == LET c == SelectSeq(notes, LAMBDA n : n.sec \in {".note.gnu.build-id", ".notes"} /\ n.owner = "GNU" /\ n.note)
                IN IF c = << >> THEN "" ELSE c[1].id
Segs(t) == IF t.etype = "REL"
           THEN << [off |-> t.text.off, va |-> t.text.va, size |-> t.text.size] >>
           ELSE LET xs == Exec(t.ph) IN [i \in DOMAIN xs |-> [off |-> xs[i].off, va |-> xs[i].va, size |-> xs[i].size]]
Usable(t) == IF t.etype = "REL" THEN t.ko /\ t.linkonce /\ t.text.has /\ t.info.wellformed
             ELSE Exec(t.ph) # << >>
Pairs(ms) == {<<m.start, m.len, m.pgoff>> : m \in ms}
SameMaps(out, ms) ==
  /\ {out[i].pid : i \in DOMAIN out} = DOMAIN ms
  /\ \A i \in DOMAIN out : Range(out[i].m) = Pairs(ms[out[i].pid]) /\ Len(out[i].m) = Cardinality(ms[out[i].pid])
  /\ Len(out) = Cardinality(DOMAIN ms)

Step(t) ==
  CASE t.e = "Reset" -> bin' = [pie |-> FALSE, segs |-> << >>] /\ maps' = << >>
    [] t.e = "Given" -> bin' = [pie |-> t.pie, segs |-> t.segs] /\ UNCHANGED maps
    [] t.e = "Binary" ->
         /\ t.ok = Usable(t)
         /\ t.ok => /\ t.st.pie = (t.etype = "DYN") /\ t.st.bid = BidOf(t.notes) /\ t.st.segs = Segs(t)
                    /\ t.etype = "REL" => Range(t.st.info) = Range(t.info.pairs) /\ Len(t.st.info) = Cardinality(Range(t.info.pairs))
         /\ IF t.ok THEN bin' = [pie |-> (t.etype = "DYN"), segs |-> Segs(t)] ELSE UNCHANGED bin
         /\ UNCHANGED maps
    \* .modinfo parsed on its own
    [] t.e = "ModInfo" -> t.ok = t.info.wellformed
                          /\ (t.ok => Range(t.out) = Range(t.info.pairs) /\ Len(t.out) = Cardinality(Range(t.info.pairs)))
                          /\ UNCHANGED <<bin, maps>>
    [] t.e = "Load" ->
         LET wanted == IF t.names # << >> THEN Range(t.names)
                       ELSE IF t.bid = "" THEN {} ELSE NamesOf(t.bid, t.ids)
             evs == SelectSeq(t.evs, LAMBDA v : v.has /\ v.name # <<"">>)
             r == IF wanted = {} THEN [ok |-> FALSE, maps |-> << >>] ELSE Select(<< >>, evs, wanted)
             good == r.ok /\ DOMAIN r.maps # {}
         IN /\ t.ok = good
            /\ IF good THEN SameMaps(t.out, r.maps) /\ maps' = r.maps ELSE maps' = << >>
            /\ UNCHANGED bin
    [] t.e = "Translate" -> /\ \A i \in DOMAIN t.q : t.r[i] = Translate(t.pid, t.q[i])
                            /\ Len(t.r) = Len(t.q) /\ UNCHANGED <<bin, maps>>
    [] t.e = "Lbr" -> LET v == Lbr(t.samples) IN IsTable(t.out.b, v.b) /\ IsTable(t.out.f, v.f) /\ UNCHANGED <<bin, maps>>
    [] t.e = "Spe" -> LET v == Spe(t.recs) IN IsTable(t.out.t, v.t) /\ IsTable(t.out.n, v.n) /\ UNCHANGED <<bin, maps>>
    [] OTHER -> FALSE
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
