------------------------------ MODULE PropTrace ------------------------------
(* Validates what the Propeller pipeline did against Cfg and Layout.          *)
EXTENDS Cfg, Layout, TraceLib
VARIABLES l, prog, H, G, lay, ch, ord
tvars == <<l, prog, H, G, lay, ch, ord>>

NoGraph == [n |-> << >>, e |-> {}, f |-> << >>]
NoChains == [p |-> << >>, fs |-> {}, c |-> {}]
NoOrder == [p |-> << >>, s |-> << >>]
NoProg == [funcs |-> << >>, syms |-> << >>]
Flags == {"ret", "tail", "eh", "ft", "ib"}

(* ---- recorded graphs ---- *)
E(x) == [s |-> <<x[1], x[2]>>, t |-> <<x[3], x[4]>>, w |-> x[5], k |-> x[6], x |-> x[7]]
EdgesAre(seq, S) == Len(seq) = Cardinality(S) /\ {E(seq[i]) : i \in DOMAIN seq} = S
WithFreq(n, es) == TLCEval([v \in DOMAIN n |-> n[v] @@ [freq |-> Freq({e \in es : e.t = v}, {e \in es : e.s = v})]])
(* cfgs: a sequence of [f, names, sec, mod, nodes].                           *)
MkGraph(cfgs, es) ==
  LET node(v) == LET c == cfgs[CHOOSE i \in DOMAIN cfgs : cfgs[i].f = v[1]] n == c.nodes[v[2] + 1]
                 IN [size |-> n.size, addr |-> n.addr, id |-> n.id, ret |-> n.ret, tail |-> n.tail, eh |-> n.eh, ft |-> n.ft, ib |-> n.ib]
      vs == UNION {{<<cfgs[i].f, j - 1>> : j \in DOMAIN cfgs[i].nodes} : i \in DOMAIN cfgs}
  IN [n |-> WithFreq([v \in vs |-> node(v)], es), e |-> es,
      f |-> [f \in {cfgs[i].f : i \in DOMAIN cfgs} |->
               LET c == cfgs[CHOOSE i \in DOMAIN cfgs : cfgs[i].f = f] IN [sec |-> c.sec, names |-> c.names, mod |-> c.mod]]]
NodeIs(n, v, g) == /\ n.bb = v[2] /\ n.f = v[1] /\ n.entry = (v[2] = 0)
                   /\ n.size = g.size /\ n.addr = g.addr /\ n.id = g.id /\ n.freq = g.freq
                   /\ \A k \in Flags : n[k] = g[k]
GraphIs(out, g) ==
  /\ [i \in DOMAIN out |-> out[i].f] = SetToSortSeq(DOMAIN g.f, LAMBDA x, y : x < y)
  /\ \A i \in DOMAIN out :
       LET c == out[i] f == c.f IN
       /\ c.names = g.f[f].names /\ c.sec = g.f[f].sec /\ c.mod = g.f[f].mod
       /\ c.lp = Pads(g, f) /\ c.hotlp = HotPads(g, f) /\ c.hot = Touched(g, f)
       /\ Len(c.nodes) = Cardinality(NodesOf(g, f))
       /\ \A j \in DOMAIN c.nodes :
            LET n == c.nodes[j] v == <<f, j - 1>> IN
            /\ NodeIs(n, v, g.n[v]) /\ n.clone = 0
            /\ EdgesAre(n.io, {e \in g.e : e.s = v /\ e.t[1] = f}) /\ EdgesAre(n.ii, {e \in g.e : e.t = v /\ e.s[1] = f})
            /\ EdgesAre(n.xo, {e \in g.e : e.s = v /\ e.t[1] # f}) /\ EdgesAre(n.xi, {e \in g.e : e.t = v /\ e.s[1] # f})
       /\ EdgesAre(c.intra, {e \in g.e : e.s[1] = f /\ e.t[1] = f})
       /\ EdgesAre(c.inter, {e \in g.e : e.s[1] = f /\ e.t[1] # f})

(* ---- programs and lookups ---- *)
DoProgram(t) == t.ok /\ prog' = t.prog /\ H' = << >> /\ UNCHANGED <<G, lay, ch, ord>>
SelNow == {H[i].f : i \in DOMAIN H}
(* What a step computes is a value: TLC evaluates a LET of an action again  *)
(* wherever it is used.                                                     *)
MapperR(t) ==
  LET s == TLCEval(Selection(prog, Range(t.hot), t.all, t.filter))
      h == Handles(prog, s.sel)
      fs == SetToSortSeq(s.sel, LAMBDA x, y : x < y)
      ok ==
     /\ t.ok
     /\ t.sel = [i \in DOMAIN fs |-> [f |-> fs[i], names |-> s.info[fs[i]].names, sec |-> s.info[fs[i]].sec]]
     /\ t.h = [i \in DOMAIN h |-> <<h[i].f, h[i].b>>]
     /\ \A i \in DOMAIN h : /\ t.blocks[i].a = h[i].a /\ t.blocks[i].e = h[i].e
     /\ t.info = Cardinality(s.sel)
     /\ t.st = [dup |-> s.dup, nosym |-> s.nosym, hot |-> s.hot]
  IN [ok |-> ok, h |-> h]
DoMapper(t) == \E r \in {MapperR(t)} : r.ok /\ H' = r.h /\ UNCHANGED <<prog, G, lay, ch, ord>>
DoFind(t) == /\ \A i \in DOMAIN t.q : t.r[i] = Find(H, t.q[i][1], t.q[i][2]) - 1
             /\ UNCHANGED <<prog, H, G, lay, ch, ord>>
DoFall(t) == /\ \A i \in DOMAIN t.q : t.r[i] = CanFall(H, t.q[i][1] + 1, t.q[i][2] + 1)
             /\ UNCHANGED <<prog, H, G, lay, ch, ord>>
DoKind(t) == /\ \A i \in DOMAIN t.q : t.r[i] = <<IsCall(H, t.q[i][2] + 1, t.q[i][3]), IsReturn(H, t.q[i][1] + 1, t.q[i][2] + 1, t.q[i][3])>>
             /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

(* ---- graphs ---- *)
(* The unit an address belongs to, when the program tells: not when parts   *)
(* of what it tells are elsewhere.                                          *)
Debug(g) == "cus" \in DOMAIN g /\ g.cus # << >> /\ ~\E c \in Range(g.cus) : c.skel
UnitOf(g, a) == LET m == {c \in Range(g.cus) : \E x \in Range(c.rs) : x[1] <= a /\ a < x[2]}
                IN IF m = {} THEN "-" ELSE (CHOOSE c \in m : TRUE).name
BuildR(t) ==
  LET c == TLCEval(Counted(H, t.br, t.ft))
      L == TLCEval(Listed(prog))
      syms == TLCEval([f \in FuncIds(prog) |-> SymsOf(prog, L, f)])
      v(i) == <<H[i].f, H[i].b>>
      rec == TLCEval(IF Has(t, "out") THEN UNION {{E(t.out[i].intra[j]) : j \in DOMAIN t.out[i].intra} \cup {E(t.out[i].inter[j]) : j \in DOMAIN t.out[i].inter} : i \in DOMAIN t.out}
             ELSE {})
      kind(p) == LET r == {e.k : e \in {x \in rec : x.s = v(p[1]) /\ x.t = v(p[2])}} \cap c.kinds[p]
                 IN IF r # {} THEN CHOOSE k \in r : TRUE ELSE CHOOSE k \in c.kinds[p] : TRUE
      sec(f) == Fold(syms[f][1].sec)
      es == TLCEval({[s |-> v(p[1]), t |-> v(p[2]), w |-> c.weight[p], k |-> kind(p), x |-> sec(H[p[1]].f) # sec(H[p[2]].f)] : p \in DOMAIN c.weight})
      names(f) == LET q == syms[f] IN [i \in DOMAIN q |-> q[i].name]
      node(f, b) == LET F == prog.funcs[f + 1] x == F.blocks[b + 1]
                    IN [size |-> x.size, addr |-> F.addr + x.off, id |-> x.id, ret |-> x.ret, tail |-> x.tail, eh |-> x.eh, ft |-> x.ft, ib |-> x.ib]
      vs == {v(i) : i \in DOMAIN H}
      all == WithFreq([u \in vs |-> node(u[1], u[2])], es)
      hotv == TLCEval({u \in vs : all[u].freq # 0})
      kept == {u[1] : u \in hotv}
      g == [n |-> TLCEval([u \in {w \in vs : w[1] \in kept} |-> all[u]]), e |-> es,
            f |-> [f \in kept |-> [sec |-> sec(f), names |-> names(f),
                                       mod |-> IF t.mod /\ Debug(prog) THEN UnitOf(prog, prog.funcs[f + 1].addr) ELSE "-"]]]
      bykind(k) == Cardinality({e \in es : e.k = k})
      ok ==
     /\ t.ok = c.ok
     /\ t.debug = Debug(prog)
     /\ Range(t.uniq) = UNION {{x[1], x[2]} : x \in Range(t.br) \cup Range(t.ft)} /\ Len(t.uniq) = Cardinality(Range(t.uniq))
     /\ t.total = SumSeq(t.br, LAMBDA x : x[3])
     /\ c.ok =>
             /\ GraphIs(t.out, g)
             /\ t.st = [cfgs |-> Cardinality(SelNow), nodes |-> Len(H),
                        lp |-> Cardinality({f \in kept : \E u \in hotv : u[1] = f /\ all[u].eh}),
                        hot |-> Cardinality(hotv), empty |-> Cardinality({u \in hotv : all[u].size = 0}),
                        edges |-> [B |-> bykind("B"), C |-> bykind("C"), R |-> bykind("R")],
                        weight |-> c.kindweight]
  IN [ok |-> ok, made |-> c.ok, g |-> IF c.ok THEN g ELSE NoGraph]
DoBuild(t) == \E r \in {BuildR(t)} :
                /\ r.ok /\ UNCHANGED <<prog, H>>
                /\ IF r.made THEN G' = r.g /\ lay' = << >> /\ ch' = NoChains /\ ord' = NoOrder ELSE UNCHANGED <<G, lay, ch, ord>>
GivenR(t) ==
  LET key(x) == <<<<x[1], x[2]>>, <<x[3], x[4]>>, x[6]>>
      w == FoldLeft(LAMBDA a, x : Inc(a, key(x), x[5]), NoCounts, t.edges)
      sec(f) == t.cfgs[CHOOSE i \in DOMAIN t.cfgs : t.cfgs[i].f = f].sec
      g == MkGraph(t.cfgs, {[s |-> k[1], t |-> k[2], w |-> w[k], k |-> k[3], x |-> sec(k[1][1]) # sec(k[2][1])] : k \in DOMAIN w})
  IN [ok |-> GraphIs(t.out, g), g |-> g]
DoGiven(t) == \E r \in {GivenR(t)} : r.ok /\ G' = r.g /\ lay' = << >> /\ ch' = NoChains /\ ord' = NoOrder /\ UNCHANGED <<prog, H>>

(* ---- aggregation ---- *)
(* Rows <<from, to, n>> are exactly a table.                                  *)
RowsAre(rows, T) == IsTable([i \in DOMAIN rows |-> <<<<rows[i][1], rows[i][2]>>, rows[i][3]>>], T)
Table(rows) == TLCEval([k \in {<<rows[i][1], rows[i][2]>> : i \in DOMAIN rows} |->
                          SumOver({i \in DOMAIN rows : <<rows[i][1], rows[i][2]>> = k}, LAMBDA i : rows[i][3])])
Ends(rows) == UNION {{x[1], x[2]} : x \in Range(rows)}
SetIs(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)
AggR(t) ==
  LET lbr == t.kind = "L"
      br == Table(t.in)
      ft == IF lbr THEN Table(t.ft) ELSE Inferred(H, t.size, t.in, t.still)
      ends == Ends(t.in) \cup IF lbr THEN Ends(t.ft) ELSE {x[1] : x \in Range(t.still)}
      good == ~t.lazy \/ t.okin
      nagg(i) == Cardinality({j \in 1 .. i : t.out[j].q = "A"})
  IN /\ t.right /\ t.srctotal = Total(br)
     \* a walk's own steps are what is inferred from it
     /\ t.walked => LET one(p) == <<Find(H, p[1], "T"), Find(H, p[2], "F")>>
                        spread == FoldLeft(LAMBDA m, x : Inc(m, <<x[1], x[2]>>, x[3]), NoCounts, t.steps)
                        ks == {one(p) : p \in DOMAIN ft}
                    IN /\ \A s \in DOMAIN spread : spread[s] = SumOver({p \in DOMAIN ft : one(p)[1] <= s[1] /\ s[2] <= one(p)[2]}, LAMBDA p : ft[p])
                       /\ \A k \in ks : \A i \in k[1] .. k[2] - 1 : <<i, i + 1>> \in DOMAIN spread
     /\ \A i \in DOMAIN t.out :
          LET r == t.out[i] IN
          /\ r.ok = good
          /\ r.calls = (IF t.lazy THEN 1 ELSE 0)        \* read once, by the first question
          /\ r.st = (IF good THEN t.stat * nagg(i) ELSE 0)
          /\ good /\ r.q = "E" => SetIs(r.a, ends)
          /\ good /\ r.q = "A" => /\ RowsAre(r.br, br) /\ RowsAre(r.ft, ft)
                                 /\ r.total = Total(br)
                                 /\ SetIs(r.uniq, Ends(t.in) \cup UNION {{k[1], k[2]} : k \in DOMAIN ft})
DoAgg(t) == (\E ok \in {AggR(t)} : ok) /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

(* ---- layouts ---- *)
Sum2(q) == <<SumSeq(q, LAMBDA x : x[1]), SumSeq(q, LAMBDA x : x[2])>>
LayoutR(t) ==
  LET p == t.params
      secs == {G.f[f].sec : f \in DOMAIN G.f}
      fs == FoldLeft(LAMBDA a, s : a \o s.fs, << >>, t.out)
      group(f) == IF p.inter THEN Cardinality({g \in DOMAIN G.f : G.f[g].sec = G.f[f].sec}) ELSE 1
      start == UNION {StartChains(p, G, f, << >>) : f \in {x \in DOMAIN G.f : ~Together(G, p, group(x), x)}}
      sgl == {c \in start : Len(Flat(c.b)) = 1}
  IN /\ {t.out[i].sec : i \in DOMAIN t.out} = secs /\ Len(t.out) = Cardinality(secs)
     /\ \A i \in DOMAIN t.out : /\ LayoutOk(p, t.scale, G, t.out[i].sec, t.out[i].fs)
                                /\ ScoresOk(p, t.scale, G, t.out[i].sec, t.out[i].fs)
                                /\ (ord.p = p /\ t.out[i].sec \in DOMAIN ord.s) => LaidSeq(G, t.out[i].fs) = ord.s[t.out[i].sec]
     /\ t.st.o = Sum2([i \in DOMAIN fs |-> fs[i].o]) /\ t.st.n = Sum2([i \in DOMAIN fs |-> fs[i].n])
     /\ (~\E f \in DOMAIN G.f : Together(G, p, group(f), f)) =>
          t.st.single = Cardinality(sgl) /\ t.st.multi = Cardinality(start \ sgl)
DoLayout(t) == (\E ok \in {LayoutR(t)} : ok) /\ lay' = t.out /\ UNCHANGED <<prog, H, G, ch, ord>>

(* ---- chains ---- *)
ChainOk(p, scale, V, c) == /\ c.size = ChainSize(G, c.b) /\ c.freq = ChainFreq(G, c.b)
                           /\ c.score = ChainScore(p, scale, G, V, c.b)
Bare(c) == [id |-> c.id, b |-> c.b]
ChainsAre(out, C) == Len(out) = Cardinality(C) /\ {Bare(out[i]) : i \in DOMAIN out} = C
ChainsR(t) ==
  LET p == t.params Fs == Range(t.fs) n == Len(t.fs)
      V == VisitEdges(p, G, n, Fs)
      given(f) == LET m == {i \in DOMAIN t.init : t.init[i].f = f}
                  IN IF m = {} THEN << >>
                     ELSE LET q == t.init[CHOOSE i \in m : TRUE].chains IN [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> <<f, q[i][j]>>]]
      tog == {f \in Fs : Together(G, p, n, f)}
      plain == UNION {StartChains(p, G, f, given(f)) : f \in Fs \ tog}
      out == {Bare(t.out[i]) : i \in DOMAIN t.out}
      ok ==
     /\ {c \in out : c.id[1] \notin tog} = plain
     /\ \A f \in tog : LET cs == {c \in out : c.id[1] = f} IN
          /\ Cardinality(cs) = IF LaidOut(p, G, f) = {} THEN 0 ELSE 1
          /\ \A c \in cs : /\ Len(c.b) = 1 /\ Range(c.b[1]) = LaidOut(p, G, f) /\ Len(c.b[1]) = Cardinality(LaidOut(p, G, f))
                           /\ c.id = c.b[1][1]
                           /\ p.rhb /\ given(f) = << >> => \A q \in Paths(G, f) : Consecutive(c.b[1], q)
     /\ Len(t.out) = Cardinality(out)
     /\ \A i \in DOMAIN t.out : ChainOk(p, t.scale, V, t.out[i])
  IN [ok |-> ok, ch |-> [p |-> p, fs |-> Fs, n |-> n, scale |-> t.scale, v |-> V, c |-> out]]
DoChains(t) == \E r \in {ChainsR(t)} : r.ok /\ ch' = r.ch /\ UNCHANGED <<prog, H, G, lay, ord>>
MergeR(t) ==
  LET p == ch.p
      s == CHOOSE c \in ch.c : c.id = t.s
      u == CHOOSE c \in ch.c : c.id = t.u
      m == [id |-> s.id, b |-> Merged(p, s.b, u.b, t.order, t.pos)]
      next == (ch.c \ {s, u}) \cup {m}
      ok ==
     /\ \E c \in ch.c : c.id = t.s
     /\ \E c \in ch.c : c.id = t.u
     /\ s # u
     /\ <<t.order, t.pos>> \in Options(p, ch.v, s.b, u.b)
     /\ EntryOk(p, s.b, u.b, Arrange(s.b, u.b, t.order, t.pos))
     /\ t.gain = Gain(p, ch.scale, G, ch.v, s.b, u.b, t.order, t.pos)
     /\ t.gain > 0
     /\ t.gain = Max(Gains(p, ch.scale, G, ch.v, ch.c))
     /\ ChainsAre(t.out, next)
     /\ \A i \in DOMAIN t.out : ChainOk(p, ch.scale, ch.v, t.out[i])
  IN [ok |-> ok, c |-> IF ok THEN next ELSE {}]
DoMerge(t) == \E r \in {MergeR(t)} : r.ok /\ ch' = [ch EXCEPT !.c = r.c] /\ UNCHANGED <<prog, H, G, lay, ord>>
ChainEndR(t) ==
  LET rest == Gains(ch.p, ch.scale, G, ch.v, ch.c)
  IN /\ \A g \in rest : g <= 0
     /\ t.coalesced = (ch.n = 1)
     /\ IF t.coalesced
        THEN LET j == Joined(G, ch.c) IN
             /\ {[id |-> c.id, q |-> Flat(c.b)] : c \in {Bare(t.out[i]) : i \in DOMAIN t.out}} = {[id |-> c.id, q |-> Flat(c.b)] : c \in j}
             /\ \A i \in DOMAIN t.out : t.out[i].size = ChainSize(G, t.out[i].b) /\ t.out[i].freq = ChainFreq(G, t.out[i].b)
        ELSE ChainsAre(t.out, ch.c)
DoChainEnd(t) == (\E ok \in {ChainEndR(t)} : ok) /\ ch' = NoChains /\ UNCHANGED <<prog, H, G, lay, ord>>

(* ---- clusters ---- *)
Plain(x) == [id |-> x.id, b |-> x.b, size |-> x.size, freq |-> x.freq]
ClustersR(t) ==
  LET p == t.params
      C == {Plain(t.chains[i]) : i \in DOMAIN t.chains}
      Fs == {f \in DOMAIN G.f : G.f[f].sec = t.sec}
      all == FoldLeft(LAMBDA a, x : a \o x.b, << >>, t.chains)
  IN /\ Len(t.chains) = Cardinality({c.id : c \in C})
     /\ Len(all) = Cardinality(Range(all)) /\ Range(all) = UNION {LaidOut(p, G, f) : f \in Fs}
     /\ \A c \in C : /\ c.size = SumSeq(c.b, LAMBDA v : G.n[v].size) /\ c.freq = SumSeq(c.b, LAMBDA v : G.n[v].freq)
     /\ ~p.inter => Cardinality(C) = Cardinality({f \in Fs : LaidOut(p, G, f) # {}}) /\ \A c \in C : Entry(c.b[1]) /\ Cardinality({v[1] : v \in Range(c.b)}) = 1
     /\ [i \in DOMAIN t.out |-> Plain(t.out[i])] = ClustersOf(p, G, t.unit, C)
(* What a layout with the same parameters must then report.                 *)
DoClusters(t) ==
  /\ \E ok \in {ClustersR(t)} : ok
  /\ \E b \in {FoldLeft(LAMBDA a, x : a \o x.b, << >>, t.out)} :
       ord' = [p |-> t.params, s |-> (t.sec :> b) @@ (IF ord.p = t.params THEN ord.s ELSE << >>)]
  /\ UNCHANGED <<prog, H, G, lay, ch>>

(* ---- files ---- *)
LinesAre(out, want) == /\ Len(out) = Len(want)
                       /\ \A i \in DOMAIN want : /\ out[i].n = want[i].n
                                                 /\ Range(out[i].s) = want[i].s /\ Len(out[i].s) = want[i].c
DoWrite(t) == /\ \E w \in {FileLines(G, lay, t.ver, t.verbose)} : LinesAre(t.cc, w)
              /\ t.ld = SymbolLines(G, lay)
              /\ t.sc = IF t.verbose THEN FoldLeft(LAMBDA a, s : a \o [i \in DOMAIN s.fs |-> s.fs[i].sx[1]], << >>, lay) ELSE << >>
              /\ "dot" \in DOMAIN t => DumpIs(G, lay, t.dot)
              /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

(* ---- hot blocks ---- *)
DoHot(t) == /\ \A i \in DOMAIN t.q : t.r[i] = Threshold(G, t.q[i])
            /\ \A i \in DOMAIN t.j : Range(t.jr[i]) = HotJoins(G, t.j[i][1], t.j[i][2]) /\ Len(t.jr[i]) = Cardinality(Range(t.jr[i]))
            /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

(* ---- the serialised and the cloned graphs ---- *)
ProtoOf(f) == [f |-> f, sec |-> G.f[f].sec, names |-> G.f[f].names,
               nodes |-> [j \in 1 .. Cardinality(NodesOf(G, f)) |->
                            LET g == G.n[<<f, j - 1>>] IN [id |-> g.id, size |-> g.size, ft |-> g.ft, ret |-> g.ret, tail |-> g.tail, eh |-> g.eh]]]
DoProto(t) ==
  /\ t.ok /\ ~t.missing
  /\ {t.out[i].f : i \in DOMAIN t.out} = DOMAIN G.f /\ Len(t.out) = Cardinality(DOMAIN G.f)
  /\ \A i \in DOMAIN t.out :
       LET c == t.out[i] IN
       /\ [c EXCEPT !.nodes = [j \in DOMAIN @ |-> [k \in DOMAIN @[j] \ {"es"} |-> @[j][k]]]] = ProtoOf(c.f)
       /\ \A j \in DOMAIN c.nodes :
            LET es == c.nodes[j].es want == {e \in G.e : e.s = <<c.f, j - 1>> /\ e.t[1] = c.f}
            IN Len(es) = Cardinality(want) /\ Range(es) = {<<e.t[1], e.t[2], e.w, e.k>> : e \in want}
  /\ UNCHANGED <<prog, H, G, lay, ch, ord>>
CloneR(t) ==
  LET f == t.f
      es == {e \in G.e : e.s[1] = f /\ e.t[1] = f}
      g == [n |-> WithFreq([v \in NodesOf(G, f) |-> [k \in {"size", "addr", "id"} \cup Flags |-> G.n[v][k]]], es),
            e |-> es, f |-> [x \in {f} |-> G.f[f]]]
      n == Cardinality(NodesOf(G, f))
      m == Len(t.path)
      no(j) == Cardinality({i \in 1 .. j : t.path[i] = t.path[j]})
      isclone(x, j) == /\ x.clone = no(j) /\ NodeIs(x, <<f, t.path[j]>>, [G.n[<<f, t.path[j]>>] EXCEPT !.freq = 0])
                       /\ x.io = << >> /\ x.ii = << >> /\ x.xo = << >> /\ x.xi = << >>
      iscopy(c) == /\ Len(c.nodes) = n + m
                   /\ c.lp = Pads(g, f) + Cardinality({j \in 1 .. m : G.n[<<f, t.path[j]>>].eh})
                   /\ GraphIs(<<[c EXCEPT !.nodes = SubSeq(@, 1, n), !.lp = Pads(g, f)]>>, g)
                   /\ \A j \in 1 .. m : isclone(c.nodes[n + j], j)
  IN /\ iscopy(t.out[1]) /\ iscopy(t.out2[1])
     /\ t.paths = <<<<<<G.n[<<f, t.pred>>].id, t.pred, 0>>>> \o [j \in 1 .. m |-> <<G.n[<<f, t.path[j]>>].id, t.path[j], no(j)>>]>>
     /\ \* the original is as it was
        /\ Len(t.orig[1].nodes) = n
        /\ \A j \in 1 .. n : NodeIs(t.orig[1].nodes[j], <<f, j - 1>>, G.n[<<f, j - 1>>])
        /\ EdgesAre(t.orig[1].intra, es)
        /\ EdgesAre(t.orig[1].inter, {e \in G.e : e.s[1] = f /\ e.t[1] # f})
DoClone(t) == (\E ok \in {CloneR(t)} : ok) /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

(* ---- whole runs ---- *)
Pp == INSTANCE Pipe
At(b, m) == INSTANCE S05 WITH bin <- b, maps <- m
NoBin == [pie |-> TRUE, segs |-> << >>]
RECURSIVE Back(_, _)
Back(i, e) == IF Trace[i].e = e THEN i ELSE IF Trace[i].e = "Reset" THEN 0 ELSE Back(i - 1, e)
(* The mappings a recording shows of the binary.                              *)
Loaded(t, f) ==
  LET wanted == IF t.names # << >> THEN Range(t.names) ELSE IF t.bid = "" THEN {} ELSE At(NoBin, << >>)!NamesOf(t.bid, f.ids)
      r == IF f.state # "ok" \/ wanted = {} THEN [ok |-> FALSE, maps |-> << >>] ELSE At(NoBin, << >>)!Select(<< >>, f.evs, wanted)
  IN IF r.ok THEN r.maps ELSE << >>
(* A run of the stages done before, from recordings to files.                 *)
PipeR(t, i) ==
  LET M == Trace[Back(i, "Mapper")]
      A == Trace[Back(i, "Agg")]
      B == Trace[Back(i, "Build")]
      D == Trace[Back(i, "Layout")]
      b == [pie |-> TRUE, segs |-> <<t.seg>>]
      fmaps(q) == [k \in DOMAIN q |-> Loaded(t, q[k])]
      m1 == TLCEval(fmaps(t.files))
      m0 == TLCEval(fmaps(t.dep))
      brief(q, m) == [k \in DOMAIN q |-> [type |-> q[k].type, state |-> q[k].state, maps |-> DOMAIN m[k] # {}]]
      tool == t.api = 3
      o == [api |-> IF tool THEN 0 ELSE t.api, type |-> t.type, files |-> brief(t.files, m1), dep |-> brief(t.dep, m0), bin |-> t.bin, http |-> t.http, mod |-> t.mod /\ ~Debug(prog), built |-> B.ok]
      q == IF t.api = 2 THEN t.dep \o t.files ELSE t.files
      ms == IF t.api = 2 THEN m0 \o m1 ELSE m1
      used == SetToSortSeq(Pp!Used(o), LAMBDA x, y : x < y)
      lbr == A.kind = "L"
      rows(T) == {<<k[1], k[2], T[k]>> : k \in DOMAIN T}
      L == TLCEval(IF lbr THEN FoldLeft(LAMBDA a, k : LET v == At(b, ms[k])!Lbr(q[k].samples) IN [b |-> Plus(a.b, v.b), f |-> Plus(a.f, v.f)],
                                [b |-> NoCounts, f |-> NoCounts], used)
                   ELSE FoldLeft(LAMBDA a, k : LET v == At(b, ms[k])!Spe(q[k].recs) IN [b |-> Plus(a.b, v.t), f |-> Plus(a.f, v.n)],
                                [b |-> NoCounts, f |-> NoCounts], used))
      ends == UNION {{k[1], k[2]} : k \in DOMAIN L.b} \cup (IF lbr THEN UNION {{k[1], k[2]} : k \in DOMAIN L.f} ELSE DOMAIN L.f)
      \* the tool refuses options that leave nothing to do
      good == Pp!Succeeds(o) /\ (tool => t.params.sf \/ t.params.rhb)
      told == t.told = (IF Pp!Watched(o) THEN <<"start", "stop">> ELSE << >>)
      \* a jump and a call or return between the same two blocks: either kind may be kept
      plain == \A k \in {Counted(H, B.br, B.ft).kinds} : \A x \in DOMAIN k : Cardinality(k[x]) = 1
      froms == {k[1] : k \in DOMAIN L.b} \ {-1}
  IN \* the stages were given what the recordings hold
     /\ (~Pp!Refused(o) /\ Pp!Usable(o)) =>
          /\ ~M.all /\ Range(M.hot) = ends /\ M.filter = t.filter
          /\ RowsAre(A.in, L.b)
          /\ IF lbr THEN RowsAre(A.ft, L.f) ELSE IsTable(A.still, L.f) /\ A.size = t.fixed
          /\ Range(B.br) = Range(A.out[1].br) /\ Range(B.ft) = Range(A.out[1].ft)
          /\ B.ok => D.params = t.params /\ B.mod = t.mod
     /\ t.ok = good
     /\ t.exists = [cc |-> good, ld |-> good]
     /\ (good /\ plain) =>
                /\ \E w \in {FileLines(G, lay, t.ver, t.verbose)} : LinesAre(t.cc, w)
                /\ t.ld = SymbolLines(G, lay)
                /\ Has(t, "dot") => DumpIs(G, lay, t.dot)
     /\ t.dumped = (good /\ Has(t, "dot"))
     /\ tool => ~t.done
     /\ tool \/ told
     /\ (Pp!Watched(o) /\ ~tool) => t.percent = Pp!Percent(Pp!Reached(o)) /\ t.done = good
     /\ t.reports = (IF good /\ t.api \notin {2, 3} THEN <<1, 1>> ELSE <<0, 0>>)
     /\ (good /\ ~tool) =>
                /\ t.st.files = Len(used) /\ t.st.br = Total(L.b)
                /\ t.st.mmaps = SumSeq(used, LAMBDA k : Cardinality(DOMAIN ms[k]))
                /\ t.st.map = M.st /\ (plain => t.st.cfg = B.st /\ t.st.lay = D.st)
                /\ lbr => t.st.dis = <<Cardinality(froms), SumOver({k \in DOMAIN L.b : k[1] # -1}, LAMBDA k : L.b[k])>>
DoPipe(t) == (\E ok \in {PipeR(t, l - 1)} : ok) /\ UNCHANGED <<prog, H, G, lay, ch, ord>>

Step(t) ==
  CASE t.e = "Reset" -> prog' = NoProg /\ H' = << >> /\ G' = NoGraph /\ lay' = << >> /\ ch' = NoChains /\ ord' = NoOrder
    [] t.e = "Program" -> DoProgram(t)
    [] t.e = "Mapper" -> DoMapper(t)
    [] t.e = "Find" -> DoFind(t)
    [] t.e = "Fall" -> DoFall(t)
    [] t.e = "BrKind" -> DoKind(t)
    [] t.e = "Build" -> DoBuild(t)
    [] t.e = "Agg" -> DoAgg(t)
    [] t.e = "Given" -> DoGiven(t)
    [] t.e = "Layout" -> DoLayout(t)
    [] t.e = "Chains" -> DoChains(t)
    [] t.e = "ChainMerge" -> DoMerge(t)
    [] t.e = "ChainEnd" -> DoChainEnd(t)
    [] t.e = "Clusters" -> DoClusters(t)
    [] t.e = "Write" -> DoWrite(t)
    [] t.e = "Pipe" -> DoPipe(t)
    [] t.e = "Hot" -> DoHot(t)
    [] t.e = "Proto" -> DoProto(t)
    [] t.e = "Clone" -> DoClone(t)
    \* a second run on the same input in another order gave the same results
    [] t.e = "Again" -> t.same /\ UNCHANGED <<prog, H, G, lay, ch, ord>>
    [] OTHER -> FALSE
TInit == l = 1 /\ prog = NoProg /\ H = << >> /\ G = NoGraph /\ lay = << >> /\ ch = NoChains /\ ord = NoOrder
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
