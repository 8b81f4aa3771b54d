-------------------------------- MODULE Cfg --------------------------------
(* A program as functions of basic blocks, the selection of functions, the  *)
(* block that holds an address, and the control-flow graphs that sampled    *)
(* branches and fall-throughs imply.                                        *)
EXTENDS Counters, Functions, TLC

(* ---- selection --------------------------------------------------------- *)
(* syms in symbol table order; a symbol is listed at its address when it is *)
(* a sized function and agrees in size with those listed there before it.   *)
Listed(P) ==
  FoldLeft(LAMBDA acc, s :
             IF s.func /\ s.addr # 0 /\ s.size # 0 /\ \A i \in DOMAIN acc : acc[i].addr = s.addr => acc[i].size = s.size
             THEN Append(acc, s) ELSE acc, << >>, P.syms)
SymsOf(P, L, f) == SelectSeq(L, LAMBDA s : s.addr = P.funcs[f + 1].addr)
Fold(sec) == IF sec = ".text" \/ (Len(sec) >= 6 /\ SubSeq(sec, 1, 6) = ".text.") THEN ".text" ELSE sec
FuncIds(P) == 0 .. Len(P.funcs) - 1
FuncEnd(P, f) == LET F == P.funcs[f + 1] b == Last(F.blocks) IN F.addr + b.off + b.size
Holder(P, a) == LET c == {f \in FuncIds(P) : P.funcs[f + 1].addr <= a} IN IF c = {} THEN -1 ELSE Max(c)
HotFuncs(P, hot) == {f \in FuncIds(P) : \E a \in hot : Holder(P, a) = f /\ a < FuncEnd(P, f)}
Shape(P, f) == [i \in DOMAIN P.funcs[f + 1].blocks |-> <<P.funcs[f + 1].blocks[i].off, P.funcs[f + 1].blocks[i].size>>]
Selection(P, hot, all, filter) ==
  LET L == TLCEval(Listed(P))
      symtab == TLCEval([f \in FuncIds(P) |-> SymsOf(P, L, f)])
      first == IF all THEN FuncIds(P) ELSE HotFuncs(P, hot)
      named == {f \in first : symtab[f] # << >>}
      kept == TLCEval({f \in named : ~filter \/ Fold(symtab[f][1].sec) = ".text"})
      uses == TLCEval([n \in UNION {{symtab[f][i].name : i \in DOMAIN symtab[f]} : f \in kept} |->
                 {<<f, i>> \in kept \X (1 .. Max({Len(symtab[g]) : g \in kept})) : i <= Len(symtab[f]) /\ symtab[f][i].name = n}])
      dups == {n \in DOMAIN uses : Cardinality(uses[n]) > 1}
      uniq(n) == \A u \in uses[n] : symtab[u[1]][u[2]].uniq
      same(n) == \A u, v \in uses[n] : Shape(P, u[1]) = Shape(P, v[1])
      drop(n) == LET fs == {u[1] : u \in uses[n]} IN IF uniq(n) /\ same(n) THEN fs \ {Min(fs)} ELSE fs
      sel == kept \ UNION {drop(n) : n \in dups}
  IN [sel |-> sel,
      info |-> [f \in sel |-> [names |-> [i \in DOMAIN symtab[f] |-> symtab[f][i].name], sec |-> Fold(symtab[f][1].sec)]],
      hot |-> IF all THEN 0 ELSE Cardinality(first),
      nosym |-> Cardinality({f \in FuncIds(P) : symtab[f] = << >>}),
      dup |-> SumOver(dups, LAMBDA n : Cardinality(uses[n]) - 1)]

(* ---- blocks ------------------------------------------------------------ *)
(* The blocks of the selected functions in order: f, b, address a, end e.   *)
Handles(P, sel) ==
  FoldLeft(LAMBDA acc, f : acc \o [i \in DOMAIN P.funcs[f + 1].blocks |->
                                     LET F == P.funcs[f + 1] x == F.blocks[i]
                                     IN [f |-> f, b |-> i - 1, a |-> F.addr + x.off, e |-> F.addr + x.off + x.size,
                                         ret |-> x.ret, ft |-> x.ft, entry |-> F.addr]],
           << >>, SetToSortSeq(sel, LAMBDA x, y : x < y))
NoBlock == 0
(* The block an address belongs to, as the source or target of a branch.    *)
Find(H, a, dir) ==
  LET at == {i \in DOMAIN H : H[i].a = a}
      in == {i \in DOMAIN H : H[i].a < a /\ a < H[i].e}
  IN IF at = {} THEN (IF in = {} THEN NoBlock ELSE CHOOSE i \in in : TRUE)
     ELSE LET m == Max(at) IN IF dir = "F" THEN m ELSE Min({i \in at : H[i].f = H[m].f})
CanFall(H, i, j) ==
  \/ i = j
  \/ /\ H[i].f = H[j].f /\ H[i].b < H[j].b
     /\ \A k \in i .. j - 1 : H[k].ft
IsCall(H, t, a) == H[t].b = 0 /\ a = H[t].a
IsReturn(H, f, t, a) == H[t].a # a \/ (H[t].b # 0 /\ (f = NoBlock \/ H[f].ret))

(* ---- graphs ------------------------------------------------------------ *)
(* What one branch counter stands for: the call site's fall-through when it *)
(* is a return to the start of the block after the call, and an edge.       *)
Branch(H, from, to) ==
  LET f == Find(H, from, "F") t0 == Find(H, to, "T")
      none == [fall |-> << >>, edge |-> << >>, kind |-> "", dubious |-> FALSE]
  IN IF t0 = NoBlock THEN none
     ELSE LET returns == /\ (f = NoBlock \/ H[f].ret \/ H[f].f # H[t0].f)
                         /\ to # H[t0].entry /\ to = H[t0].a /\ H[t0].b # 0
              t == IF returns THEN t0 - 1 ELSE t0
              fall == IF returns THEN <<t, t0>> ELSE << >>
          IN IF f = NoBlock THEN [none EXCEPT !.fall = fall]
             ELSE [fall |-> fall, edge |-> <<f, t>>,
                   kind |-> IF to = H[t].entry THEN "C" ELSE IF to # H[t].a \/ H[f].ret THEN "R" ELSE "B",
                   dubious |-> ~H[f].ret /\ to # H[t].a]
(* All counters: br and ft are sequences of <<from, to, n>>, each pair once. *)
Counted(H, br, ft) ==
  LET bs == TLCEval([i \in DOMAIN br |-> Branch(H, br[i][1], br[i][2])])
      made == {i \in DOMAIN br : bs[i].edge # << >>}
      fs == TLCEval([i \in DOMAIN ft |-> <<Find(H, ft[i][1], "T"), Find(H, ft[i][2], "F")>>])
      falls0 == FoldLeft(LAMBDA acc, i : IF bs[i].fall = << >> THEN acc ELSE Inc(acc, bs[i].fall, br[i][3]),
                         NoCounts, [i \in DOMAIN br |-> i])
      falls == FoldLeft(LAMBDA acc, i : IF fs[i][1] = NoBlock \/ fs[i][2] = NoBlock THEN acc ELSE Inc(acc, fs[i], ft[i][3]),
                        falls0, [i \in DOMAIN ft |-> i])
      walked == TLCEval({p \in DOMAIN falls : p[1] # p[2] /\ CanFall(H, p[1], p[2])})
      direct == FoldLeft(LAMBDA acc, i : IF i \in made THEN Inc(acc, bs[i].edge, br[i][3]) ELSE acc,
                         NoCounts, [i \in DOMAIN br |-> i])
      steps == UNION {{<<k, k + 1>> : k \in p[1] .. p[2] - 1} : p \in walked}
      weight == TLCEval([s \in DOMAIN direct \cup steps |->
                   Get(direct, s) + SumOver({p \in walked : p[1] <= s[1] /\ s[2] <= p[2] /\ s[2] = s[1] + 1}, LAMBDA p : falls[p])])
      kinds == TLCEval([s \in DOMAIN weight |-> IF s \in DOMAIN direct THEN {bs[i].kind : i \in {j \in made : bs[j].edge = s}} ELSE {"B"}])
      bykind(k) == SumOver({i \in made : bs[i].kind = k}, LAMBDA i : br[i][3])
      along == SumOver(walked, LAMBDA p : falls[p] * (p[2] - p[1]))
      total == SumOver(made, LAMBDA i : br[i][3])
      bad == SumOver({i \in made : bs[i].dubious}, LAMBDA i : br[i][3])
  IN [weight |-> weight, kinds |-> kinds,
      kindweight |-> [B |-> bykind("B") + along, C |-> bykind("C"), R |-> bykind("R")],
      ok |-> bad * 10 <= 3 * total /\ (br = << >> \/ Cardinality(DOMAIN direct) * 2000 >= Len(br))]
(* ---- fall-throughs from branch frequencies -------------------------------- *)
(* taken: <<from, to, n>>; still: <<address, n>> of branches not taken; each   *)
(* once. size: of every instruction, 0 when they vary.                         *)
BlockWeights(H, size, taken, still) ==
  LET src == TLCEval([i \in DOMAIN taken |-> Find(H, taken[i][1], "F")])
      dst == TLCEval([i \in DOMAIN taken |-> Find(H, taken[i][2], "T")])
      non == TLCEval([i \in DOMAIN still |-> Find(H, still[i][1], "F")])
      last(b, a) == size # 0 /\ b # NoBlock /\ a = H[b].e - size
      ends == {i \in DOMAIN taken : last(src[i], taken[i][1])}
      goes == {i \in DOMAIN still : last(non[i], still[i][1])}
      seen == ({src[i] : i \in DOMAIN taken} \cup {dst[i] : i \in DOMAIN taken} \cup {non[i] : i \in goes}) \ {NoBlock}
      in == FoldLeft(LAMBDA m, i : Inc(m, dst[i], taken[i][3]), NoCounts, [i \in DOMAIN taken |-> i])
      out == FoldLeft(LAMBDA m, i : Inc(m, src[i], taken[i][3]), NoCounts, [i \in DOMAIN taken |-> i])
  IN [b \in seen |-> [in |-> Get(in, b), out |-> Get(out, b),
                      \* the flow out of the end of the block, when it is recorded
                      known |-> \E i \in ends \cup goes : IF i \in goes /\ non[i] = b THEN TRUE ELSE i \in ends /\ src[i] = b,
                      thru |-> SumOver({i \in goes : non[i] = b}, LAMBDA i : still[i][2])]]
(* Flow runs on from a block to the next recorded one, when it can.          *)
Inferred(H, size, taken, still) ==
  LET W == TLCEval(BlockWeights(H, size, taken, still))
      end(i, j) == IF j <= Len(H) /\ CanFall(H, i, j) THEN j
                   ELSE IF i + 1 <= Len(H) /\ CanFall(H, i, i + 1) THEN i + 1 ELSE NoBlock
      add(m, i, j, n) == LET e == end(i, j) IN IF e = NoBlock THEN m ELSE Inc(m, <<H[i].a, H[e].a>>, n)
      step(s, b) ==
        LET more == IF s.p # NoBlock /\ CanFall(H, s.p, b) THEN s.n ELSE 0
            m == IF s.p = NoBlock THEN s.m ELSE add(s.m, s.p, b, s.n)
            n == IF W[b].known THEN W[b].thru ELSE W[b].in + more - W[b].out
        IN IF n > 0 THEN [p |-> b, n |-> n, m |-> m] ELSE [p |-> NoBlock, n |-> 0, m |-> m]
      z == FoldLeft(step, [p |-> NoBlock, n |-> 0, m |-> NoCounts], SetToSortSeq(DOMAIN W, LAMBDA x, y : x < y))
  IN IF z.p = NoBlock THEN z.m ELSE add(z.m, z.p, z.p + 1, z.n)
(* Executions of a node from the edges at it.                               *)
Freq(ins, outs) ==  \* sets of <<..., weight, kind>> records
  LET mx(S) == IF S = {} THEN 0 ELSE Max({e.w : e \in S})
      sm(S) == SumOver(S, LAMBDA e : e.w)
  IN Max({mx({e \in outs : e.k = "C"}), mx({e \in ins : e.k = "R"}),
          sm({e \in outs : e.k # "C"}), sm({e \in ins : e.k # "R"})})
=============================================================================
