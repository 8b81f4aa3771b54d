------------------------------- MODULE Layout -------------------------------
(* Code layout: which blocks are laid out, which must stay together, how    *)
(* chains of blocks merge, what a layout scores, and how it is reported.    *)
(* G.n : <<f, b>> -> [size, addr, eh, freq, id]; G.e : set of               *)
(* [s, t, w, k, x] edges; G.f : f -> [sec, names, mod].                     *)
EXTENDS Counters, Functions, TLC

NodesOf(G, f) == {v \in DOMAIN G.n : v[1] = f}
InOrder(S) == SetToSortSeq(S, LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))
Before(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])
Entry(v) == v[2] = 0
HotPads(G, f) == \E v \in NodesOf(G, f) : G.n[v].eh /\ G.n[v].freq # 0
Pads(G, f) == Cardinality({v \in NodesOf(G, f) : G.n[v].eh})
Touched(G, f) == \E e \in G.e : e.s[1] = f \/ e.t[1] = f
HotSet(p, G, f) == {v \in NodesOf(G, f) : \/ G.n[v].freq # 0
                                          \/ Entry(v) /\ ~p.inter
                                          \/ G.n[v].eh /\ HotPads(G, f)}
LaidOut(p, G, f) == IF ~Touched(G, f) THEN {} ELSE IF p.sf THEN HotSet(p, G, f) ELSE NodesOf(G, f)

(* ---- forced paths ------------------------------------------------------ *)
Jumps(G, f) == {e \in G.e : e.s[1] = f /\ e.t[1] = f /\ e.k = "B" /\ e.w # 0}
Forced(G, f) == LET J == Jumps(G, f)
                IN {<<e.s, e.t>> : e \in {x \in J : /\ \A y \in J : y.s = x.s => y = x
                                                    /\ \A y \in J : y.t = x.t => y = x}}
NextOf(F) == [v \in {x[1] : x \in F} |-> (CHOOSE x \in F : x[1] = v)[2]]
RECURSIVE Walk(_, _, _)
Walk(nx, v, seen) == IF v \in DOMAIN nx /\ v \notin Range(seen) THEN Walk(nx, nx[v], Append(seen, v)) ELSE Append(seen, v)
(* Each cycle loses the edge into its first block.                          *)
Uncycled(F) ==
  LET nx == NextOf(F)
      oncycle(v) == v \in DOMAIN nx /\ Last(Walk(nx, nx[v], <<v>>)) = v
      cyc(v) == Range(Walk(nx, v, << >>))
  IN {x \in F : ~(oncycle(x[1]) /\ \A u \in cyc(x[1]) : ~Before(u, x[2]))}
Paths(G, f) == LET F == Uncycled(Forced(G, f)) nx == NextOf(F)
               IN {Walk(nx, v, << >>) : v \in {x[1] : x \in F} \ {x[2] : x \in F}}

(* ---- scores (times scale) ---------------------------------------------- *)
EdgeScore(p, scale, G, e, d) ==
  LET x == d + (IF e.k = "C" THEN G.n[e.s].size \div 2 ELSE 0) + (IF e.k = "R" THEN G.n[e.t].size \div 2 ELSE 0)
  IN IF x = 0 /\ e.k = "B" THEN e.w * p.ftw * scale
     ELSE IF x > 0 /\ x < p.fwd THEN e.w * p.fww * (p.fwd - x) * (scale \div p.fwd)
     ELSE IF x < 0 /\ -x < p.bwd THEN e.w * p.bww * (p.bwd + x) * (scale \div p.bwd)
     ELSE 0
(* Positions of a sequence of nodes laid end to end.                        *)
PosMap(G, seq) ==
  LET off == FoldLeft(LAMBDA a, v : Append(a, Last(a) + G.n[v].size), <<0>>, seq)
      ix == [v \in Range(seq) |-> CHOOSE i \in DOMAIN seq : seq[i] = v]
  IN [v \in Range(seq) |-> off[ix[v]]]
Dist(G, pos, e) == pos[e.t] - pos[e.s] - G.n[e.s].size
ScoreAt(p, scale, G, pos, f, n) ==
  LET E == {e \in G.e : e.s[1] = f /\ e.w # 0 /\ e.k # "R"}
      sum(S) == SumOver(S, LAMBDA e : EdgeScore(p, scale, G, e, Dist(G, pos, e)))
  IN <<sum({e \in E : e.t[1] = f}), IF n > 1 THEN sum({e \in E : e.t[1] # f /\ ~e.x}) ELSE 0>>

(* ---- chains ------------------------------------------------------------ *)
(* A chain: [id, b] with b a sequence of bundles (sequences of nodes) that  *)
(* are never split.                                                         *)
Flat(b) == FoldLeft(LAMBDA a, x : a \o x, << >>, b)
VisitEdges(p, G, n, Fs) ==
  {e \in G.e : e.w # 0 /\ e.k # "R" /\ e.s[1] \in Fs /\ e.t[1] \in Fs
               /\ IF e.k = "C" THEN p.inter /\ n > 1 /\ ~e.x ELSE TRUE}
BundleOf(b) == [v \in Range(Flat(b)) |-> CHOOSE i \in DOMAIN b : v \in Range(b[i])]
ChainScore(p, scale, G, V, b) ==
  LET pos == PosMap(G, Flat(b)) bo == BundleOf(b)
  IN SumOver({e \in V : e.s \in DOMAIN bo /\ e.t \in DOMAIN bo /\ bo[e.s] # bo[e.t]},
             LAMBDA e : EdgeScore(p, scale, G, e, Dist(G, pos, e)))
ChainSize(G, b) == SumSeq(Flat(b), LAMBDA v : G.n[v].size)
ChainFreq(G, b) == SumSeq(Flat(b), LAMBDA v : G.n[v].freq)
Singles(seq) == [i \in DOMAIN seq |-> <<seq[i]>>]
MkChain(b) == [id |-> b[1][1], b |-> b]
Together(G, p, n, f) == p.inter /\ n > 1 /\ Pads(G, f) > 1 /\ HotPads(G, f)
(* The chains merging starts from (of functions not kept together).         *)
StartChains(p, G, f, given) ==
  IF ~Touched(G, f) THEN {}
  ELSE LET hot == HotSet(p, G, f)
           cold == NodesOf(G, f) \ hot
           coldc == IF p.sf \/ cold = {} THEN {} ELSE {MkChain(<<InOrder(cold)>>)}
           multi == IF given # << >> THEN {MkChain(Singles(given[i])) : i \in DOMAIN given}
                    ELSE {MkChain(<<q>>) : q \in Paths(G, f)}
           used == UNION {Range(Flat(c.b)) : c \in multi}
       IN coldc \cup (IF ~p.rhb THEN {MkChain(<<InOrder(hot)>>)}
                      ELSE multi \cup {MkChain(<<<<v>>>>) : v \in hot \ used})
Arrange(s, u, order, k) ==
  LET s1 == SubSeq(s, 1, k) s2 == SubSeq(s, k + 1, Len(s))
  IN CASE order = "SU" -> s \o u
       [] order = "S2S1U" -> s2 \o s1 \o u
       [] order = "S1US2" -> s1 \o u \o s2
       [] order = "US2S1" -> u \o s2 \o s1
       [] order = "S2US1" -> s2 \o u \o s1
FuncsIn(b) == {v[1] : v \in Range(Flat(b))}
Glue(b) == FoldLeft(LAMBDA a, x : IF a # << >> /\ Last(a)[1][1] = x[1][1] THEN Append(Front(a), Last(a) \o x) ELSE Append(a, x), << >>, b)
Rebundles(p, s, u) == /\ Cardinality(FuncsIn(s)) > 1 \/ FuncsIn(s) # FuncsIn(u)
                      /\ p.split /\ Len(s) + Len(u) > p.thr
Merged(p, s, u, order, k) == LET b == Arrange(s, u, order, k) IN IF Rebundles(p, s, u) THEN Glue(b) ELSE b
Between(V, s, u) == LET S == Range(Flat(s)) U == Range(Flat(u))
                    IN {e \in V : (e.s \in S /\ e.t \in U) \/ (e.s \in U /\ e.t \in S)}
Gain(p, scale, G, V, s, u, order, k) ==
  LET b == Arrange(s, u, order, k)
      pos == PosMap(G, Flat(b))
      inter == SumOver(Between(V, s, u), LAMBDA e : EdgeScore(p, scale, G, e, Dist(G, pos, e)))
  IN IF inter = 0 THEN 0 ELSE ChainScore(p, scale, G, V, b) - ChainScore(p, scale, G, V, s) - ChainScore(p, scale, G, V, u)
FirstIn(b) == b[1][1]
EntryOk(p, s, u, b) == p.inter \/ ~(Entry(FirstIn(s)) \/ Entry(FirstIn(u))) \/ Entry(FirstIn(b))
(* The ways to merge u into s that are considered.                          *)
Options(p, V, s, u) ==
  LET inner == 1 .. Len(s) - 1
      last == Last(Last(u)) first == u[1][1]
      toMid == {i \in inner : \E e \in V : e.s = last /\ e.t = s[i + 1][1]}
      fromMid == {i \in inner : \E e \in V : e.t = first /\ e.s = Last(s[i])}
  IN {<<"SU", 0>>} \cup
     (IF ~p.split THEN {}
      ELSE IF Len(s) <= p.thr THEN {"S1US2", "S2S1U", "US2S1", "S2US1"} \X inner
      ELSE ({"S1US2", "US2S1"} \X toMid) \cup ({"S1US2", "S2S1U"} \X fromMid))
Gains(p, scale, G, V, C) ==
  UNION {{Gain(p, scale, G, V, c[1].b, c[2].b, o[1], o[2]) :
            o \in {x \in Options(p, V, c[1].b, c[2].b) : EntryOk(p, c[1].b, c[2].b, Arrange(c[1].b, c[2].b, x[1], x[2]))}} :
         c \in {d \in C \X C : d[1] # d[2] /\ Between(V, d[1].b, d[2].b) # {}}}
(* When one function's chains are left, they are joined: the entry's chain  *)
(* first, the others by decreasing executions per byte.                     *)
Denser(G, c, d) == LET fc == ChainFreq(G, c.b) sc == Max2(ChainSize(G, c.b), 1)
                       fd == ChainFreq(G, d.b) sd == Max2(ChainSize(G, d.b), 1)
                   IN fc * sd > fd * sc \/ (fc * sd = fd * sc /\ Before(c.id, d.id))
Joined(G, C) ==
  IF C = {} THEN {}
  ELSE LET e == {c \in C : Entry(FirstIn(c.b))}
           rest == SetToSortSeq(C \ e, LAMBDA c, d : Denser(G, c, d))
           order == SetToSeq(e) \o rest
       IN {[id |-> order[1].id, b |-> FoldLeft(LAMBDA a, c : a \o c.b, << >>, order)]}

(* ---- clusters of chains ------------------------------------------------ *)
(* C: the finished chains, a set of [id, b, size, freq], b a sequence of    *)
(* nodes. unit: executions per unit of frequency, at most 1000.             *)
Of(C) == TLCEval([v \in UNION {Range(c.b) : c \in C} |-> (CHOOSE c \in C : v \in Range(c.b)).id])
Called(G, C) == {e \in G.e : e.w # 0 /\ e.k # "R" /\ ~e.x /\ e.t \in DOMAIN Of(C)}
DenserBy(x, y) == LET fx == x.freq sx == Max2(x.size, 1) fy == y.freq sy == Max2(y.size, 1)
                  IN fx * sy > fy * sx \/ (fx * sy = fy * sx /\ Before(x.id, y.id))
(* One chain's turn: its cluster moves behind the cluster that enters it    *)
(* most, unless that would dilute the other too much.                       *)
Turn(p, G, C, of, E, K, c) ==   \* K: set of [id, cs (chain ids in order), size, freq]
  LET me == CHOOSE k \in K : c.id \in Range(k.cs)
      heads == IF p.inter THEN Range(c.b) ELSE {c.b[1]}
      home(e) == CHOOSE k \in K : of[e.s] \in Range(k.cs)
      good == {e \in E : /\ e.t \in heads /\ of[e.s] # c.id
                         /\ e.w * 10 >= G.n[e.t].freq
                         /\ LET s == home(e) IN
                            /\ s # me /\ s.size <= p.cms
                            /\ 8 * s.size * (me.freq + s.freq) >= s.freq * (me.size + s.size)}
      from == {home(e) : e \in good}
      w(k) == SumOver({e \in good : home(e) = k}, LAMBDA e : e.w)
      best == CHOOSE k \in from : \A j \in from \ {k} : w(j) < w(k) \/ (w(j) = w(k) /\ Before(j.id, k.id))
  IN IF me.size > p.cms \/ from = {} THEN K
     ELSE (K \ {me, best}) \cup {[id |-> best.id, cs |-> best.cs \o me.cs, size |-> best.size + me.size, freq |-> best.freq + me.freq]}
ClustersOf(p, G, unit, C) ==
  LET of == Of(C)
      E == TLCEval(Called(G, C))
      into == TLCEval([c \in C |-> SumOver({e \in E : e.t \in Range(c.b) /\ of[e.s] # c.id}, LAMBDA e : e.w)])
      turns == SetToSortSeq({c \in C : into[c] # 0 /\ c.freq # 0 /\ ~(unit < 1000 /\ c.freq * unit * 200 < Max2(c.size, 1))},
                            LAMBDA x, y : into[x] > into[y] \/ (into[x] = into[y] /\ Before(x.id, y.id)))
      K0 == {[id |-> c.id, cs |-> <<c.id>>, size |-> c.size, freq |-> c.freq] : c \in C}
      K == IF p.ccc THEN FoldLeft(LAMBDA k, c : Turn(p, G, C, of, E, k, c), K0, turns) ELSE K0
      body(k) == FoldLeft(LAMBDA a, id : a \o (CHOOSE c \in C : c.id = id).b, << >>, k.cs)
      order == IF p.ccc THEN SetToSortSeq(K, DenserBy) ELSE SetToSortSeq(K, LAMBDA x, y : Before(x.id, y.id))
  IN [i \in DOMAIN order |-> [id |-> order[i].id, b |-> body(order[i]), size |-> order[i].size, freq |-> order[i].freq]]

(* ---- the reported layout ----------------------------------------------- *)
Consecutive(seq, q) == \E i \in 0 .. Len(seq) - Len(q) : \A j \in DOMAIN q : seq[i + j] = q[j]
LayoutOk(p, scale, G, sec, fs) ==
  LET Fs == {f \in DOMAIN G.f : G.f[f].sec = sec}
      n == Cardinality(Fs)
      ids == UNION {{<<i, j>> : j \in DOMAIN fs[i].cl} : i \in DOMAIN fs}
      C(x) == fs[x[1]].cl[x[2]]
      rank == [k \in {C(x).idx : x \in ids} |-> CHOOSE x \in ids : C(x).idx = k]
      N == Cardinality(ids)
      nodes(x) == [k \in DOMAIN C(x).b |-> <<fs[x[1]].f, C(x).b[k][1]>>]
      all == FoldLeft(LAMBDA a, k : a \o nodes(rank[k]), << >>, [k \in 1 .. N |-> k - 1])
      firstrank(i) == Min({fs[i].cl[j].idx : j \in DOMAIN fs[i].cl})
  IN /\ \A i \in 1 .. Len(fs) - 1 : fs[i].f < fs[i + 1].f
     /\ {fs[i].f : i \in DOMAIN fs} = {f \in Fs : LaidOut(p, G, f) # {}}
     \* ranks number the clusters, and the functions' cold parts, without gaps
     /\ DOMAIN rank = 0 .. N - 1
     /\ \A i \in DOMAIN fs : fs[i].cold = Cardinality({j \in DOMAIN fs : firstrank(j) < firstrank(i)})
     \* every block once
     /\ \A x \in ids : C(x).b # << >> /\ \A k \in DOMAIN C(x).b : C(x).b[k][2] = G.n[nodes(x)[k]].id /\ C(x).b[k][3] = 0
     /\ Len(all) = Cardinality(Range(all))
     /\ Range(all) = UNION {LaidOut(p, G, f) : f \in Fs}
     /\ \A x \in ids : /\ \A k \in 2 .. Len(C(x).b) : ~Entry(nodes(x)[k])
                       /\ x[2] > 1 => C(<<x[1], x[2] - 1>>).b[1][2] < C(x).b[1][2]
     \* a cluster ends where the function changes or its entry begins
     /\ \A k \in 1 .. N - 1 : rank[k][1] = rank[k - 1][1] => Entry(nodes(rank[k])[1])
     /\ ~p.inter => \A i \in DOMAIN fs : Len(fs[i].cl) = 1 /\ Entry(nodes(<<i, 1>>)[1])
     /\ (~p.inter /\ ~p.ccc) => \A i \in DOMAIN fs : firstrank(i) = i - 1
     \* blocks kept together, or in their original order
     /\ IF p.rhb THEN \A f \in Fs : ~Together(G, p, n, f) => \A q \in Paths(G, f) : Consecutive(all, q)
        ELSE \A f \in Fs : Touched(G, f) => LET h == InOrder(HotSet(p, G, f)) c == InOrder(NodesOf(G, f) \ HotSet(p, G, f))
                            IN ~Together(G, p, n, f) =>
                                 /\ Consecutive(all, h)
                                 /\ ~p.sf => Consecutive(all, c)
                                 /\ (~p.inter /\ ~p.sf) => Consecutive(all, h \o c)
LaidSeq(G, fs) ==
  LET ids == UNION {{<<i, j>> : j \in DOMAIN fs[i].cl} : i \in DOMAIN fs}
      seqs == SetToSortSeq(ids, LAMBDA x, y : fs[x[1]].cl[x[2]].idx < fs[y[1]].cl[y[2]].idx)
  IN FoldLeft(LAMBDA a, x : a \o [k \in DOMAIN fs[x[1]].cl[x[2]].b |-> <<fs[x[1]].f, fs[x[1]].cl[x[2]].b[k][1]>>], << >>, seqs)
ScoresOk(p, scale, G, sec, fs) ==
  LET Fs == {f \in DOMAIN G.f : G.f[f].sec = sec}
      n == Cardinality(Fs)
      pos == PosMap(G, LaidSeq(G, fs))
      orig == [v \in DOMAIN G.n |-> G.n[v].addr]
  IN \A i \in DOMAIN fs : /\ fs[i].o = ScoreAt(p, scale, G, orig, fs[i].f, n)
                          /\ fs[i].n = ScoreAt(p, scale, G, pos, fs[i].f, n)

(* ---- hot blocks --------------------------------------------------------- *)
(* The q-th percentile of the executions of the blocks that ran, and the    *)
(* blocks where hot paths join.                                             *)
Threshold(G, q) ==
  LET hot == SortSeq(SetToSeq({v \in DOMAIN G.n : G.n[v].freq # 0}), LAMBDA u, v : G.n[u].freq < G.n[v].freq)
      k == (Len(hot) * q) \div 100
  IN IF k = 0 THEN 0 ELSE G.n[hot[k]].freq
HotJoins(G, nf, ef) ==
  {v \in DOMAIN G.n : /\ v[2] # 0 /\ G.n[v].freq >= nf
                      /\ Cardinality({e \in G.e : e.t = v /\ e.s # v /\ e.s[1] = v[1] /\ e.k = "B" /\ e.w >= ef}) > 1}

(* What is reported for a final order of the blocks of a section.           *)
Report(p, scale, G, sec, order) ==
  LET n == Cardinality({f \in DOMAIN G.f : G.f[f].sec = sec})
      starts == {k \in DOMAIN order : k = 1 \/ order[k][1] # order[k - 1][1] \/ Entry(order[k])}
      end(k) == Min({j - 1 : j \in {x \in starts : x > k}} \cup {Len(order)})
      idx(k) == Cardinality({j \in starts : j < k})
      fn == {order[k][1] : k \in DOMAIN order}
      of(f) == {k \in starts : order[k][1] = f}
      first(f) == Min(of(f))
      pos == PosMap(G, order)
      orig == [v \in DOMAIN G.n |-> G.n[v].addr]
      cl(f) == LET q == SetToSortSeq(of(f), LAMBDA x, y : G.n[order[x]].id < G.n[order[y]].id)
               IN [i \in DOMAIN q |-> [idx |-> idx(q[i]), b |-> [j \in 1 .. end(q[i]) - q[i] + 1 |->
                                        <<order[q[i] + j - 1][2], G.n[order[q[i] + j - 1]].id, 0>>]]]
      fs == SetToSortSeq(fn, LAMBDA x, y : x < y)
  IN [i \in DOMAIN fs |-> [f |-> fs[i], cl |-> cl(fs[i]), cold |-> Cardinality({g \in fn : first(g) < first(fs[i])}),
                           o |-> ScoreAt(p, scale, G, orig, fs[i], n), n |-> ScoreAt(p, scale, G, pos, fs[i], n)]]

(* ---- the emitted files -------------------------------------------------- *)
Join(seq, sep) == IF seq = << >> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, seq[1], Tail(seq))
FileLines(G, lay, ver, verbose) ==
  LET func(x) ==
        LET m == G.f[x.f]
            head == IF ver = 1 THEN (IF m.mod = "-" THEN << >> ELSE <<"m " \o m.mod>>) \o <<"f " \o Join(m.names, " ")>>
                    ELSE <<"!" \o Join(m.names, "/") \o (IF m.mod = "-" THEN "" ELSE " M=" \o m.mod)>>
            ent == IF verbose THEN <<"#entry-freq " \o ToString(G.n[<<x.f, 0>>].freq)>> ELSE << >>
            body == [j \in DOMAIN x.cl |-> (IF ver = 1 THEN "c" ELSE "!!") \o Join([k \in DOMAIN x.cl[j].b |-> ToString(x.cl[j].b[k][2])], " ")]
            outs(v) == {e \in G.e : e.s = v /\ e.k = "B"}
            prof == IF verbose
                    THEN LET vs == InOrder(NodesOf(G, x.f))
                         IN [i \in DOMAIN vs |-> [n |-> ToString(G.n[vs[i]].id) \o ":" \o ToString(G.n[vs[i]].freq),
                                                  s |-> {ToString(G.n[e.t].id) \o ":" \o ToString(e.w) : e \in outs(vs[i])},
                                                  c |-> Cardinality(outs(vs[i]))]]
                    ELSE << >>
        IN [i \in DOMAIN (head \o ent \o body) |-> [n |-> (head \o ent \o body)[i], s |-> {}, c |-> 0]] \o prof
      one(s) == (IF verbose THEN <<[n |-> "#section " \o s.sec, s |-> {}, c |-> 0]>> ELSE << >>)
                \o FoldLeft(LAMBDA a, x : a \o func(x), << >>, s.fs)
  IN (IF ver = 1 THEN <<[n |-> "v1", s |-> {}, c |-> 0]>> ELSE << >>) \o FoldLeft(LAMBDA a, s : a \o one(s), << >>, lay)
SymbolLines(G, lay) ==
  LET names(f, suffix) == [i \in DOMAIN G.f[f].names |-> G.f[f].names[i] \o suffix]
      hot(s) == LET ids == UNION {{<<i, j>> : j \in DOMAIN s.fs[i].cl} : i \in DOMAIN s.fs}
                    q == SetToSortSeq(ids, LAMBDA x, y : s.fs[x[1]].cl[x[2]].idx < s.fs[y[1]].cl[y[2]].idx)
                IN FoldLeft(LAMBDA a, x : a \o names(s.fs[x[1]].f, IF s.fs[x[1]].cl[x[2]].b[1][1] = 0 THEN ""
                                                                   ELSE ".__part." \o ToString(x[2] - 1)), << >>, q)
      count(x) == SumSeq(x.cl, LAMBDA c : Len(c.b))
      cold(s) == LET q == SortSeq(s.fs, LAMBDA x, y : x.cold < y.cold)
                 IN FoldLeft(LAMBDA a, x : IF count(x) = Cardinality(NodesOf(G, x.f)) THEN a
                                           ELSE a \o names(x.f, IF \E j \in DOMAIN x.cl : x.cl[j].b[1][1] = 0 THEN ".cold" ELSE ""),
                             << >>, q)
  IN FoldLeft(LAMBDA a, s : a \o hot(s) \o cold(s), << >>, lay)
(* ---- the dumped graphs -------------------------------------------------- *)
(* The block that follows <<j, k>>, the k-th block of x's j-th cluster.      *)
Follows(x, j, k) ==
  IF k < Len(x.cl[j].b) THEN {x.cl[j].b[k + 1][1]}
  ELSE {x.cl[m].b[1][1] : m \in {m \in DOMAIN x.cl : x.cl[m].idx = x.cl[j].idx + 1}}
FallsIn(x) == UNION {UNION {{<<x.cl[j].b[k][1], v>> : v \in Follows(x, j, k)} : k \in DOMAIN x.cl[j].b} : j \in DOMAIN x.cl}
DumpHead == <<"Function.Name", "Function.Address", "N_Nodes", "N_Clusters", "Original.ExtTSP.Score", "Optimized.ExtTSP.Score">>
DumpIs(G, lay, dot) ==
  LET fs == FoldLeft(LAMBDA a, s : a \o s.fs, << >>, lay)
      at(x) == G.n[<<x.f, 0>>].addr
      one(i) ==
        LET x == fs[i]
            name == G.f[x.f].names[1]
            vs == InOrder(NodesOf(G, x.f))
            id(v) == ToString(G.n[v].id)
            red == FallsIn(x)
            own == {y \in G.e : y.s[1] = x.f /\ y.t[1] = x.f}
            jump(e) == <<id(e.s), id(e.t), e.k, ToString(e.w), IF <<e.s[2], e.t[2]>> \in red THEN "red" ELSE "black">>
            other(e) == <<id(e.s), id(e.t), e.k, ToString(e.w)>>     \* what colour a call has means nothing
            file == dot.files[i]
        IN /\ dot.idx[i] = <<name, ToString(at(x)), ToString(Len(vs)), ToString(Len(x.cl)), x.sx[2], x.sx[3]>>
           \* a file is named by its function's address: empty functions share theirs
           /\ (\A j \in DOMAIN fs : at(fs[j]) = at(x) => j = i) =>
                /\ file.rest = <<"digraph {", "label=\"" \o name \o "#" \o ToString(x.f) \o "\"", "forcelabels=true;", "}">>
                /\ file.n = [j \in DOMAIN vs |-> <<id(vs[j]), ToString(G.n[vs[j]].size), ToString(vs[j][2]), "black">>]
                /\ Len(file.e) = Cardinality(own)
                /\ {y \in Range(file.e) : y[3] = "B"} = {jump(e) : e \in {y \in own : y.k = "B"}}
                /\ {SubSeq(y, 1, 4) : y \in {y \in Range(file.e) : y[3] # "B"}} = {other(e) : e \in {y \in own : y.k # "B"}}
  IN /\ dot.head = DumpHead
     /\ Len(dot.idx) = Len(fs) /\ dot.count = 1 + Cardinality({at(fs[i]) : i \in DOMAIN fs})
     /\ \A i \in DOMAIN fs : one(i)
=============================================================================
