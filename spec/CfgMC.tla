-------------------------------- MODULE CfgMC --------------------------------
(* Branch and fall-through counters added up over small programs of every    *)
(* arrangement of block sizes, the graphs they imply, and block lookups.     *)
EXTENDS Cfg
CONSTANTS Shapes,  \* possible block size sequences of a function
          NF,      \* functions
          Gaps,    \* possible gaps in front of a function
          Flags,   \* possible <<return, can fall through>> of a block
          Cnts, MostC
S2 == {<<1>>, <<0, 2>>, <<2, 1>>}
S3 == {<<2>>, <<0, 1>>, <<1, 0, 2>>, <<2, 1, 1>>}
S4 == {<<2, 1>>, <<1, 0, 2>>}
S5 == {<<1, 0, 2>>}
S6 == S3 \cup {<<3, 1, 0, 2>>, <<1, 1, 1, 1, 1>>}
F2 == {<<FALSE, TRUE>>, <<TRUE, FALSE>>}
F4 == {<<FALSE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>, <<TRUE, TRUE>>}
VARIABLES prog, H, br, ft
mcv == <<prog, H, br, ft>>
Off(sh, i) == SumSeq(SubSeq(sh, 1, i - 1), LAMBDA x : x)
RECURSIVE Place(_, _, _, _)
Place(shs, gaps, i, at) ==
  IF i > Len(shs) THEN << >>
  ELSE LET a == at + gaps[i] IN
       <<[addr |-> a, blocks |-> [j \in DOMAIN shs[i].s |->
            [id |-> j - 1, off |-> Off(shs[i].s, j), size |-> shs[i].s[j], ret |-> shs[i].fl[j][1], tail |-> FALSE, eh |-> FALSE, ft |-> shs[i].fl[j][2], ib |-> FALSE]]]>>
       \o Place(shs, gaps, i + 1, a + Off(shs[i].s, Len(shs[i].s) + 1))
Funcs == UNION {{[s |-> s, fl |-> fl] : fl \in [DOMAIN s -> Flags]} : s \in Shapes}
Prog(shs, gaps) == LET fs == Place(shs, gaps, 1, 1)
                   IN [funcs |-> fs, syms |-> [i \in DOMAIN fs |-> [name |-> "f" \o ToString(i - 1), addr |-> fs[i].addr, size |-> 1,
                                                                    func |-> TRUE, sec |-> ".text", uniq |-> FALSE, glob |-> TRUE]]]
Init == /\ \E shs \in [1 .. NF -> Funcs], gaps \in [1 .. NF -> Gaps] : prog = Prog(shs, gaps)
        /\ H = Handles(prog, FuncIds(prog)) /\ br = NoCounts /\ ft = NoCounts
Top == LET F == Last(prog.funcs) b == Last(F.blocks) IN F.addr + b.off + b.size
Addrs == 0 .. Top + 1
From == Addrs
Room == Cardinality(DOMAIN br) + Cardinality(DOMAIN ft) < MostC
Br(a, b, n) == Room /\ <<a, b>> \notin DOMAIN br /\ br' = Inc(br, <<a, b>>, n) /\ UNCHANGED <<prog, H, ft>>
Fa(a, b, n) == Room /\ <<a, b>> \notin DOMAIN ft /\ ft' = Inc(ft, <<a, b>>, n) /\ UNCHANGED <<prog, H, br>>
MCNext == \E n \in Cnts, a \in Addrs, b \in From : Br(b, a, n) \/ Fa(a, b, n)
MCSpec == Init /\ [][MCNext]_mcv
Idle == br = NoCounts /\ ft = NoCounts

(* ---- R01 ---- *)
LookupFits == Idle =>
  \A a \in Addrs :
    LET in == {i \in DOMAIN H : H[i].a <= a /\ a < H[i].e}
        at == {i \in DOMAIN H : H[i].a = a}
        f == Find(H, a, "F") t == Find(H, a, "T")
    IN /\ Cardinality(in) <= 1
       /\ in # {} /\ at = {} => {f} = in /\ {t} = in
       /\ in = {} /\ at = {} => f = NoBlock /\ t = NoBlock
       /\ in # {} => {f} = in                      \* a branch is in the block that holds it
       /\ at # {} => t \in at /\ H[t].f = H[f].f /\ t <= f   \* a target is the first block there
       /\ \A g \in FuncIds(prog) : a = prog.funcs[g + 1].addr /\ (at # {} => \A i \in at : H[i].f = g) => H[t].b = 0
FallFits == Idle =>
  \A i, j \in DOMAIN H :
    /\ CanFall(H, i, i)
    /\ CanFall(H, i, j) => i <= j /\ H[i].f = H[j].f
    /\ i < j => (CanFall(H, i, j) <=> \A k \in i .. j - 1 : CanFall(H, k, k + 1))

(* ---- R02 ---- *)
Pairs(b) == SetToSeq({<<k[1], k[2], b[k]>> : k \in DOMAIN b})
Whole == Counted(H, Pairs(br), Pairs(ft))
Conserved ==
  LET c == TLCEval(Whole) IN
  /\ SumOver(DOMAIN c.weight, LAMBDA p : c.weight[p]) = c.kindweight.B + c.kindweight.C + c.kindweight.R
  /\ \A p \in DOMAIN c.weight : c.weight[p] > 0 \/ \E k \in DOMAIN br : br[k] = 0
  /\ \A p \in DOMAIN c.weight : "C" \in c.kinds[p] => H[p[2]].b = 0
  /\ \A p \in DOMAIN c.weight : c.kinds[p] = {"B"} /\ H[p[1]].f # H[p[2]].f => H[p[2]].b # 0
(* Every counter counts by itself: the whole is the sum of the parts.        *)
Additive ==
  LET c == TLCEval(Whole)
      one(k, b) == IF b THEN Counted(H, <<<<k[1], k[2], br[k]>>>>, << >>).weight ELSE Counted(H, << >>, <<<<k[1], k[2], ft[k]>>>>).weight
      \* call returns and fall-throughs over the same blocks add before they are walked
      sum == FoldSet(LAMBDA k, a : Plus(a, one(k, TRUE)), FoldSet(LAMBDA k, a : Plus(a, one(k, FALSE)), NoCounts, DOMAIN ft), DOMAIN br)
  IN c.weight = sum
=============================================================================
