-------------------------------- MODULE S05MC --------------------------------
(* A loader maps a binary's segments page by page at an arbitrary base into  *)
(* two processes, each mapping possibly recorded twice and in any order with *)
(* other programs' mappings; every executable address translates back.       *)
EXTENDS S05
CONSTANTS Page, Offs, Vas, Sizes, Bases
VARIABLES all,      \* the binary's segments with an executable flag
          base,     \* pid -> load base, 0: not loaded
          evs       \* mapping events recorded
mcv == <<bin, maps, all, base, evs>>
Down(x) == x - (x % Page)
Up(x) == Down(x + Page - 1)
Seg == {[off |-> o, va |-> v, size |-> z, x |-> x] : o \in Offs, v \in Vas, z \in Sizes, x \in BOOLEAN}
(* What linkers produce: file and memory positions agree within a page,      *)
(* segments in order, apart in the file and on different pages in memory.    *)
Good(s, t) == s.off + s.size <= t.off /\ Up(s.va + s.size) <= Down(t.va)
Congruent(s) == s.off % Page = s.va % Page
MCInit == /\ all \in {q \in [1..2 -> {s \in Seg : Congruent(s)}] : Good(q[1], q[2]) /\ (q[1].x \/ q[2].x)}
          /\ LET xs == SelectSeq(all, LAMBDA s : s.x)
             IN bin = [pie |-> TRUE, segs |-> [i \in DOMAIN xs |-> [off |-> xs[i].off, va |-> xs[i].va, size |-> xs[i].size]]]
          /\ maps = << >> /\ base = [p \in 1..2 |-> -1] /\ evs = << >>
Mine == <<"", "bin", "prog">>
MapOf(s, b) == [start |-> b + Down(s.va), len |-> Up(s.va + s.size) - Down(s.va), pgoff |-> Down(s.off)]
Ev(p, s, b) == LET m == MapOf(s, b) IN [pid |-> p, start |-> m.start, len |-> m.len, pgoff |-> m.pgoff, name |-> Mine]
Load(p, b) ==
  /\ base[p] = -1 /\ base' = [base EXCEPT ![p] = b]
  /\ evs' = evs \o << [pid |-> p, start |-> b, len |-> Page, pgoff |-> 0, name |-> <<"", "lib", "ld.so">>],
                      Ev(p, all[1], b), Ev(p, all[2], b), Ev(p, all[1], b) >>
  /\ LET r == Select(<< >>, evs', {<<"prog">>}) IN r.ok /\ maps' = r.maps
  /\ UNCHANGED <<bin, all>>
MCNext == \E p \in 1..2, b \in Bases : Load(p, b)
MCSpec == MCInit /\ [][MCNext]_mcv
Loadable == \A p \in 1..2, b \in Bases : LET r == Select(<< >>, <<Ev(p, all[1], b), Ev(p, all[2], b), Ev(p, all[1], b)>>, {Mine})
                                        IN r.ok /\ r.maps[p] = {MapOf(all[1], b), MapOf(all[2], b)}
Back == \A p \in 1..2, i \in 1..2 : base[p] # -1 =>
  \A x \in all[i].va..all[i].va + all[i].size - 1 :
     IF all[i].x THEN Translate(p, base[p] + x) = x
     ELSE LET y == Translate(p, base[p] + x) IN y = Invalid
Elsewhere == \A p \in 1..2 : base[p] = -1 => \A x \in 0..30 : Translate(p, x) = Invalid
=============================================================================
