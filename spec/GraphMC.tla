------------------------------- MODULE GraphMC -------------------------------
(* Control-flow graphs grown an edge at a time, the merging of their chains, *)
(* clustering and the reported layout.                                       *)
EXTENDS Cfg, Layout
CONSTANTS Sizes,   \* the sizes of each function's blocks
          Eh,      \* landing pads, a set of <<f, b>>
          Ws,      \* edge weights
          MostE,   \* most edges
          Inter, Thr, Sf, Rhb, Split
OneF == <<<<1, 2, 1>>>>
OneF4 == <<<<1, 2, 1, 0>>>>
TwoF == <<<<2, 1>>, <<1, 2>>>>
TwoF3 == <<<<2, 1, 3>>, <<1, 40>>>>
ThreeF == <<<<2, 1>>, <<1>>, <<3, 0, 1>>>>
NoEh == {}
Eh1 == {<<0, 1>>}
VARIABLES es, ch, phase, tot, order
mcv == <<es, ch, phase, tot, order>>
P == [ftw |-> 10, fww |-> 1, bww |-> 1, fwd |-> 8, bwd |-> 4, split |-> Split, thr |-> Thr, ccc |-> TRUE, cms |-> 1000,
      sf |-> Sf, rhb |-> Rhb, inter |-> Inter]
Scale == 8
FIds == 0 .. Len(Sizes) - 1
Vs == UNION {{<<f, b - 1>> : b \in DOMAIN Sizes[f + 1]} : f \in FIds}
At(f, b) == SumSeq(FoldLeft(LAMBDA a, i : a \o Sizes[i], << >>, [i \in 1 .. f |-> i]), LAMBDA x : x)
            + SumSeq(SubSeq(Sizes[f + 1], 1, b), LAMBDA x : x)
(* Jumps inside a function, calls of entries and returns to call sites.     *)
Kinds(s, t) == (IF s[1] = t[1] /\ t[2] # 0 THEN {"B"} ELSE {}) \cup (IF t[2] = 0 THEN {"C"} ELSE {})
               \cup (IF s[1] # t[1] /\ t[2] # 0 THEN {"R"} ELSE {})
Gr(E) == LET S == {[s |-> e.s, t |-> e.t, w |-> e.w, k |-> e.k, x |-> FALSE] : e \in Range(E)}
         IN [n |-> [v \in Vs |-> [size |-> Sizes[v[1] + 1][v[2] + 1], addr |-> At(v[1], v[2]), id |-> v[2], ret |-> FALSE, tail |-> FALSE,
                                  eh |-> v \in Eh, ft |-> TRUE, ib |-> FALSE,
                                  freq |-> Freq({e \in S : e.t = v}, {e \in S : e.s = v})]],
             e |-> S, f |-> [f \in FIds |-> [sec |-> ".text", names |-> <<"f" \o ToString(f)>>, mod |-> "-"]]]
G == Gr(es)
Groups == IF Inter THEN <<FIds>> ELSE [i \in 1 .. Len(Sizes) |-> {i - 1}]
N(i) == Cardinality(Groups[i])
V(i) == VisitEdges(P, G, N(i), Groups[i])
Ok == ~\E f \in FIds, i \in DOMAIN Groups : f \in Groups[i] /\ Together(G, P, N(i), f)
Score(i, C) == SumOver(C, LAMBDA c : ChainScore(P, Scale, G, V(i), c.b))
Init == es = << >> /\ ch = << >> /\ phase = "grow" /\ tot = << >> /\ order = << >>
(* An edge between two blocks that are not connected yet.                   *)
Edge(s, t, w, k) == /\ phase = "grow" /\ Len(es) < MostE
                    /\ ~\E i \in DOMAIN es : es[i].s = s /\ es[i].t = t
                    /\ k \in Kinds(s, t)
                    /\ es' = Append(es, [s |-> s, t |-> t, w |-> w, k |-> k])
                    /\ UNCHANGED <<ch, phase, tot, order>>
Begin == /\ phase = "grow" /\ es # << >> /\ Ok
         /\ phase' = "merge"
         /\ ch' = [i \in DOMAIN Groups |-> UNION {StartChains(P, G, f, << >>) : f \in Groups[i]}]
         /\ tot' = [i \in DOMAIN Groups |-> Score(i, ch'[i])]
         /\ UNCHANGED <<es, order>>
(* The merge of two chains that gains most.                                 *)
Merges(i) ==
  LET C == ch[i] W == V(i)
  IN UNION {{[s |-> c[1], u |-> c[2], o |-> o, g |-> Gain(P, Scale, G, W, c[1].b, c[2].b, o[1], o[2])] :
               o \in {x \in Options(P, W, c[1].b, c[2].b) : EntryOk(P, c[1].b, c[2].b, Arrange(c[1].b, c[2].b, x[1], x[2]))}} :
            c \in {d \in C \X C : d[1] # d[2] /\ Between(W, d[1].b, d[2].b) # {}}}
Merge(i) == /\ phase = "merge"
            /\ \E M \in {Merges(i)} : \E m \in M :
                 /\ m.g > 0 /\ \A x \in M : x.g <= m.g
                 /\ ch' = [ch EXCEPT ![i] = (@ \ {m.s, m.u}) \cup {[id |-> m.s.id, b |-> Merged(P, m.s.b, m.u.b, m.o[1], m.o[2])]}]
                 /\ tot' = [tot EXCEPT ![i] = @ + m.g]
            /\ UNCHANGED <<es, phase, order>>
Still(i) == \A m \in Merges(i) : m.g <= 0
Done == /\ phase = "merge" /\ \A i \in DOMAIN Groups : Still(i)
        /\ \E C \in {UNION {IF N(i) = 1 THEN Joined(G, ch[i]) ELSE ch[i] : i \in DOMAIN Groups}} :
             order' = FoldLeft(LAMBDA a, k : a \o k.b, << >>,
                               ClustersOf(P, G, 1, {[id |-> c.id, b |-> Flat(c.b), size |-> ChainSize(G, c.b), freq |-> ChainFreq(G, c.b)] : c \in C}))
        /\ phase' = "done" /\ UNCHANGED <<es, ch, tot>>
MCNext == \/ \E s, t \in Vs, w \in Ws : \E k \in Kinds(s, t) : Edge(s, t, w, k)
          \/ Begin \/ \E i \in DOMAIN Groups : Merge(i)
          \/ Done
MCSpec == Init /\ [][MCNext]_mcv
(* Edges added in another order make the same graph.                        *)
View == <<Range(es), ch, phase, tot, order>>

(* ---- R04: merging ---- *)
BlocksKept == phase = "merge" =>
  \A i \in DOMAIN ch : LET C == ch[i] IN
    /\ UNION {Range(Flat(c.b)) : c \in C} = UNION {LaidOut(P, G, f) : f \in Groups[i]}
    /\ SumOver(C, LAMBDA c : Len(Flat(c.b))) = Cardinality(UNION {LaidOut(P, G, f) : f \in Groups[i]})
EntriesFirst == phase = "merge" /\ ~Inter => \A i \in DOMAIN ch : \A c \in ch[i] : \A k \in 2 .. Len(Flat(c.b)) : ~Entry(Flat(c.b)[k])
PathsKept == phase \in {"merge", "done"} /\ Rhb =>
  \A i \in DOMAIN ch : \A f \in Groups[i] : \A q \in Paths(G, f) : \E c \in ch[i] : Consecutive(Flat(c.b), q)
(* Without regluing, the total is exactly the sum of the gains.             *)
GainsAdd == phase = "merge" /\ ~Inter => \A i \in DOMAIN ch : Score(i, ch[i]) = tot[i]
Rises == [][phase = "merge" /\ phase' = "merge" => \E i \in DOMAIN tot : tot'[i] > tot[i]]_mcv

(* ---- R03, R05, R06: what comes out ---- *)
Lay == <<[sec |-> ".text", fs |-> Report(P, Scale, G, ".text", order)]>>
LayoutFits == phase = "done" => LayoutOk(P, Scale, G, ".text", Lay[1].fs) /\ ScoresOk(P, Scale, G, ".text", Lay[1].fs) /\ LaidSeq(G, Lay[1].fs) = order
SymbolsOnce ==
  phase = "done" =>
    LET L == SymbolLines(G, Lay) IN
    /\ Len(L) = Cardinality(Range(L))
    /\ \A i \in DOMAIN Lay[1].fs : \E k \in DOMAIN L : \E j \in 0 .. 9 :
         L[k] \in {"f" \o ToString(Lay[1].fs[i].f), "f" \o ToString(Lay[1].fs[i].f) \o ".__part." \o ToString(j)}
LinesFit ==
  phase = "done" =>
    \A ver \in {0, 1}, vb \in BOOLEAN :
      LET L == FileLines(G, Lay, ver, vb)
          c == {i \in DOMAIN L : Len(L[i].n) >= 2 /\ ((ver = 0 /\ SubSeq(L[i].n, 1, 2) = "!!") \/ (ver = 1 /\ SubSeq(L[i].n, 1, 1) = "c"))}
          h == {i \in DOMAIN L : Len(L[i].n) >= 2 /\ ((ver = 0 /\ SubSeq(L[i].n, 1, 1) = "!" /\ SubSeq(L[i].n, 2, 2) # "!") \/ (ver = 1 /\ SubSeq(L[i].n, 1, 2) = "f "))}
      IN /\ Cardinality(c) = SumSeq(Lay[1].fs, LAMBDA x : Len(x.cl)) /\ Cardinality(h) = Len(Lay[1].fs)
         /\ (\A i \in c : \E j \in h : j < i)
         /\ ver = 1 => L[1].n = "v1"
HotMonotone ==
  phase = "grow" =>
    /\ \A q \in 0 .. 10 : Threshold(G, 10 * q) <= Threshold(G, 100)
    /\ \A q \in 0 .. 9 : Threshold(G, 10 * q) <= Threshold(G, 10 * (q + 1))
    /\ \A a, b \in 0 .. 2 : HotJoins(G, a + 1, b) \subseteq HotJoins(G, a, b) /\ HotJoins(G, a, b + 1) \subseteq HotJoins(G, a, b)
=============================================================================
