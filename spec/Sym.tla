--------------------------------- MODULE Sym ---------------------------------
(* A binary as autofdo sees it - which function holds an address, how file    *)
(* offsets and addresses correspond, which functions a profile's symbol list  *)
(* keeps - and how a run's samples become the counts of the functions they    *)
(* ran in.                                                                    *)
(*                                                                            *)
(* A symbol: name, a address, z size, fn whether it is a function, k "cold",  *)
(* "part", "plt" or "fs" by its name. A binary b: at, addresses to            *)
(* [nm name, z size]; al, names to their aliases; seg, <<offset, address>> of *)
(* the executable segments in order; fs whether it has FS discriminators.     *)
EXTENDS Prof

Kept(s) == s.k = "fs" \/ (s.z # 0 /\ s.k # "plt" /\ (s.fn \/ s.k \in {"cold", "part"}))
(* The first symbol of an address names it; the others are its aliases.       *)
RECURSIVE Symbols(_, _)
Symbols(b, ss) ==
  IF ss = << >> THEN b
  ELSE LET s == ss[1]
       IN Symbols(IF s.a \in DOMAIN b.at
                  THEN [b EXCEPT !.al = Put(@, b.at[s.a].nm, Fetch(@, b.at[s.a].nm, {}) \cup {s.name})]
                  ELSE [b EXCEPT !.at = Put(@, s.a, [nm |-> s.name, z |-> s.z])],
                  Tail(ss))
(* phs: the program headers, [load, exec, off, va]; text: <<offset, address>> *)
(* of .text in a module without any, or nothing.                              *)
Segments(phs, text, kernel) ==
  LET x == SelectSeq(phs, LAMBDA p : p.load /\ p.exec)
      first == IF kernel /\ x # << >> THEN x[1].off ELSE 0
  IN IF phs = << >> THEN (IF text = << >> THEN << >> ELSE <<text>>)
     ELSE [i \in DOMAIN x |-> <<x[i].off - first, x[i].va>>]
NewBinary(ss, phs, text, kernel) ==
  Symbols([at |-> NoCounts, al |-> NoCounts, seg |-> Segments(phs, text, kernel), fs |-> \E i \in DOMAIN ss : ss[i].k = "fs"],
          SelectSeq(ss, Kept))

(* ---- addresses ---- *)
None == -1
Below(b, a) == LET s == {x \in DOMAIN b.at : x <= a} IN IF s = {} THEN None ELSE Max(s)
StartOf(b, a) == LET s == Below(b, a) IN IF s # None /\ a < s + b.at[s].z THEN s ELSE None
SegOf(b, o) == CHOOSE i \in DOMAIN b.seg : b.seg[i][1] <= o /\ \A j \in DOMAIN b.seg : b.seg[j][1] <= o => j <= i
Vaddr(b, o) == LET s == b.seg[SegOf(b, o)] IN s[2] + o - s[1]
SegOfV(b, v) == CHOOSE i \in DOMAIN b.seg : b.seg[i][2] <= v /\ \A j \in DOMAIN b.seg : b.seg[j][2] <= v => j <= i
Offset(b, v) == LET s == b.seg[SegOfV(b, v)] IN s[1] + v - s[2]

(* Functions with samples: those that hold a sampled offset or have counts,   *)
(* and possibly the ones just before a sampled address.                       *)
Counted(b, r) == {a \in DOMAIN b.at : b.at[a].nm \in Names(r) /\ Node(r, b.at[a].nm).t > 0}
Sampled(b, r, offs) == ({StartOf(b, Vaddr(b, o)) : o \in offs} \ {None}) \cup Counted(b, r)
MaySample(b, r, offs) == ({Below(b, Vaddr(b, o)) : o \in offs} \ {None}) \cup Counted(b, r)

(* ---- the symbol list ---- q: a set or sequence index -> [nm, z]; of every  *)
(* total size keep the largest functions until a/b of it is covered. exact:   *)
(* sizes are multiples of a unit so large that a/b of them is whole.          *)
SizeSum(q, I) == SumOver(I, LAMBDA i : q[i].z)
Covers(n, total, a, b, exact) == IF exact THEN n * b >= total * a ELSE n >= (total * a) \div b
KeptSizes(q, a, b, exact) ==
  LET I == DOMAIN q
      total == SizeSum(q, I)
      big == Max({q[i].z : i \in I})
      top == {v \in {q[i].z : i \in I} : Covers(SizeSum(q, {i \in I : q[i].z >= v}), total, a, b, exact)}
  IN IF I = {} \/ a = 0 THEN {}
     ELSE IF ~(IF exact THEN big * b <= total * a ELSE big <= (total * a) \div b) THEN {}
     ELSE {i \in I : q[i].z >= Max(top)}
SymList(q, a, b, exact, Orig(_)) == {Orig(q[i].nm) : i \in KeptSizes(q, a, b, exact)}
(* Names a profile knows.                                                     *)
RECURSIVE NamesOfTree(_)
NamesOfTree(x) == UNION {DOMAIN x.p[k].tg : k \in DOMAIN x.p} \cup UNION {{k[3]} \cup NamesOfTree(x.c[k]) : k \in DOMAIN x.c}
InProfile(r) == LET E == {nm \in Names(r) : Node(r, nm).t > 0} IN E \cup UNION {NamesOfTree(Node(r, nm)) : nm \in E}
(* Functions of a binary a profile does not know, under any variant.          *)
Unknown(b, r, Orig(_)) ==
  LET known == InProfile(r)
  IN [a \in {x \in DOMAIN b.at : b.at[x].nm \notin known /\ Orig(b.at[x].nm) \notin known} |-> b.at[a]]

(* ---- from samples to counts ---- q: ad, offsets to samples; rg, <<begin,   *)
(* end>> offsets to runs; br, <<from, to>> offsets to branches; ts, offsets   *)
(* to the time of a first sample; tot, samples of the run; floor, the samples *)
(* a function must exceed in any case. src: addresses to [st stack, dup       *)
(* copies of the instruction].                                                *)
StackAt(src, a) == IF a \in DOMAIN src THEN src[a].st ELSE << >>
Threshold(q, frac) == Max2(q.floor, (q.tot * frac) \div 64)
Aggregate(b, q) ==
  [s \in DOMAIN b.at |->
    LET R == {k \in DOMAIN q.rg : StartOf(b, Vaddr(b, k[1])) = s}
        A == {o \in DOMAIN q.ad : StartOf(b, Vaddr(b, o)) = s}
        T0 == {x \in DOMAIN q.ts : StartOf(b, Vaddr(b, x)) = s}
        B == {k \in DOMAIN q.br : StartOf(b, Vaddr(b, k[1])) = s}
    IN [hit |-> R # {} \/ A # {} \/ T0 # {} \/ B # {},
        rg |-> R, ad |-> A, br |-> B,
        n |-> IF R # {} THEN SumOver(R, LAMBDA k : q.rg[k] * (1 + Vaddr(b, k[2]) - Vaddr(b, k[1])))
              ELSE SumOver(A, LAMBDA o : q.ad[o]),
        ts |-> LET T == {q.ts[o] : o \in T0} \ {0} IN IF T = {} THEN 0 ELSE Min(T)]]
(* Functions emitted: those whose variants together pass the threshold.       *)
Passing(b, ag, thr, Orig(_)) ==
  {s \in DOMAIN b.at : SumOver({x \in DOMAIN b.at : Orig(b.at[x].nm) = Orig(b.at[s].nm)}, LAMBDA x : ag[x].n) > thr}
(* Of functions of one name, those without samples are listed (with counts of *)
(* 0) for the last only.                                                      *)
Listed(b, ag, s) == \/ ag[s].hit
                    \/ \A x \in DOMAIN b.at : b.at[x].nm = b.at[s].nm => x <= s
(* Executions of every instruction of the function at s.                      *)
Executions(b, q, ag, s, lbr) ==
  LET body == s..(s + b.at[s].z - 1)
      runs(a) == SumOver({k \in ag[s].rg : Vaddr(b, k[1]) <= a /\ a <= Vaddr(b, k[2])}, LAMBDA k : q.rg[k])
      hit == IF lbr THEN {a \in body : \E k \in ag[s].rg : Vaddr(b, k[1]) <= a /\ a <= Vaddr(b, k[2])}
             ELSE {Vaddr(b, o) : o \in ag[s].ad}
  IN [a \in hit |-> IF lbr THEN runs(a) ELSE SumOver({o \in ag[s].ad : Vaddr(b, o) = a}, LAMBDA o : q.ad[o])]
AddSet(node, S, Val(_), Stk(_), inst) ==
  FoldSet(LAMBDA a, acc : Add(acc, Stk(a), Val(a), inst, TRUE), node, S)
AddCalls(b, q, src, s, r, Orig(_)) ==
  FoldSet(LAMBDA k, acc :
            LET to == Vaddr(b, k[2])
                callee == b.at[to].nm
                x == SetNode(acc, callee, [Node(acc, callee) EXCEPT !.h = @ + q.br[k]])
            IN IF to \notin DOMAIN b.at THEN acc
               ELSE IF callee \notin Names(acc) THEN acc
               ELSE SetNode(x, b.at[s].nm, AddCall(Node(x, b.at[s].nm), StackAt(src, Vaddr(b, k[1])), Orig(callee), q.br[k], TRUE)),
          r, q.now)
CountFunction(b, q, src, ag, s, lbr, r, Orig(_)) ==
  LET nm == b.at[s].nm
      body == {a \in s..(s + b.at[s].z - 1) : StackAt(src, a) # << >>}
      rt == RanAt(r, nm, ag[s].ts)
      mapped == AddSet(Node(rt, nm), body, LAMBDA a : 0, LAMBDA a : StackAt(src, a), 1)
      ex == TLCEval(Executions(b, q, ag, s, lbr))
      ran == AddSet(mapped, {a \in DOMAIN ex : StackAt(src, a) # << >>}, LAMBDA a : ex[a] * src[a].dup, LAMBDA a : StackAt(src, a), 0)
  IN IF lbr /\ ag[s].rg = {} THEN SetNode(rt, nm, mapped)
     ELSE AddCalls(b, [br |-> q.br, now |-> ag[s].br], src, s, SetNode(rt, nm, ran), Orig)
Computed(b, q, src, pol, frac, lbr, Orig(_)) ==
  LET ag == TLCEval(Aggregate(b, q))
      P == TLCEval({s \in Passing(b, ag, Threshold(q, frac), Orig) : Listed(b, ag, s)})
      r0 == [NewProfile(pol) EXCEPT !.al = b.al, !.thr = Threshold(q, frac)]
      r1 == FoldSet(LAMBDA s, acc : AddSym(acc, b.at[s].nm), r0, P)
  IN FoldSet(LAMBDA s, acc : CountFunction(b, q, src, ag, s, lbr, acc, Orig), r1, P)
(* Misses: every function with a missing address becomes a profile (of no     *)
(* weight but to pass the threshold) with the misses as calls.                *)
Weigh(node, st, n) == Walk(Located(node, Last(st)), st, Len(st), n, FALSE, NoAct)
MissesOf(b, q, src, ag, s, r) ==
  LET nm == b.at[s].nm
      A == {Vaddr(b, o) : o \in ag[s].ad}
      live == {a \in A : StackAt(src, a) # << >>}
      n(a) == SumOver({o \in ag[s].ad : Vaddr(b, o) = a}, LAMBDA o : q.ad[o])
      r1 == AddSym(r, nm)
      x0 == IF nm \in Names(r) THEN Node(r, nm) ELSE Weigh(Node(r1, nm), StackAt(src, Min(live)), r.thr + 1)
  IN IF live = {} THEN r
     ELSE SetNode(r1, nm, FoldSet(LAMBDA a, acc : AddCall(acc, StackAt(src, a), "__llc_misses__", n(a), FALSE), x0, live))
Misses(b, q, src, pol, frac) ==
  LET ag == TLCEval(Aggregate(b, q))
  IN FoldSet(LAMBDA s, acc : MissesOf(b, q, src, ag, s, acc),
             [NewProfile(pol) EXCEPT !.al = b.al, !.thr = Threshold(q, frac)], DOMAIN b.at)
=============================================================================
