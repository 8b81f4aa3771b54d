-------------------------------- MODULE SymMC --------------------------------
(* Laws of Sym, on every small list of sizes, binary and run.                 *)
EXTENDS Sym
CONSTANTS Most,   \* entries of a list, symbols of a binary, ranges of a run
          Big     \* greatest size or count
VARIABLE v
Done == FALSE /\ v' = v

(* ---- the symbol list ---- *)
Sizes == UNION {[1..n -> 0..Big] : n \in 0..Most}
ListInit == v \in {[q |-> [i \in DOMAIN z |-> [nm |-> ToString(i), z |-> z[i]]]] : z \in Sizes}
B == 8
K(a) == KeptSizes(v.q, a, B, FALSE)
Same(nm) == nm
ListMonotone == \A a \in 0..(B - 1) : K(a) \subseteq K(a + 1)
ListUpClosed == \A a \in 0..B : \A i \in K(a), j \in DOMAIN v.q : v.q[j].z >= v.q[i].z => j \in K(a)
ListFull == K(B) = IF \A i \in DOMAIN v.q : v.q[i].z = 0 THEN DOMAIN v.q ELSE {i \in DOMAIN v.q : v.q[i].z > 0}
ListNone == K(0) = {}
(* What is kept covers the ratio, and without its smallest sizes it would not *)
ListCovers ==
  \A a \in 1..B :
    LET k == K(a)
        total == SizeSum(v.q, DOMAIN v.q)
        low == Min({v.q[i].z : i \in k})
    IN k = {} \/ (/\ Covers(SizeSum(v.q, k), total, a, B, FALSE)
                  /\ LET less == {i \in k : v.q[i].z > low}
                     IN less = {} \/ ~Covers(SizeSum(v.q, less), total, a, B, FALSE))
(* Whether sizes are whole multiples of a unit does not matter when it is 8.  *)
ListScales == \A a \in 0..B :
   KeptSizes(v.q, a, B, TRUE) = KeptSizes([i \in DOMAIN v.q |-> [v.q[i] EXCEPT !.z = @ * B]], a, B, FALSE)

(* ---- binaries ---- *)
Sy(nm, a, z, fn, k) == [name |-> nm, a |-> a, z |-> z, fn |-> fn, k |-> k]
SymsOf == {Sy(nm, a, z, w[1], w[2]) : nm \in {"f", "g", "h"}, a \in 0..3, z \in 0..2, w \in {<<TRUE, "">>, <<FALSE, "">>, <<FALSE, "cold">>, <<TRUE, "plt">>}}
Headers == <<[load |-> TRUE, exec |-> TRUE, off |-> 1, va |-> 0], [load |-> TRUE, exec |-> FALSE, off |-> 3, va |-> 2],
             [load |-> TRUE, exec |-> TRUE, off |-> 4, va |-> 7]>>
BinInit == v = [ss |-> << >>, phs |-> Headers]
BinNext == Len(v.ss) < Most /\ \E y \in SymsOf : v' = [v EXCEPT !.ss = Append(@, y)]
b1 == NewBinary(v.ss, v.phs, << >>, FALSE)
bk == NewBinary(v.ss, v.phs, << >>, TRUE)
Apart == \A i, j \in DOMAIN v.ss : Kept(v.ss[i]) /\ Kept(v.ss[j]) =>
           (v.ss[i].a = v.ss[j].a \/ v.ss[i].a + v.ss[i].z <= v.ss[j].a \/ v.ss[j].a + v.ss[j].z <= v.ss[i].a)
OneFunction == Apart => \A a \in 0..6 :
   LET in == {i \in DOMAIN v.ss : Kept(v.ss[i]) /\ v.ss[i].a <= a /\ a < v.ss[i].a + v.ss[i].z}
       s == StartOf(b1, a)
   IN /\ (s # None) => /\ \E i \in in : v.ss[i].a = s /\ v.ss[i].name = b1.at[s].nm
                       /\ \A i \in in : v.ss[i].a = s
      /\ (s = None) => \A i \in in : \E j \in DOMAIN v.ss : j < i /\ Kept(v.ss[j]) /\ v.ss[j].a = v.ss[i].a
AllNamed == \A i \in DOMAIN v.ss : Kept(v.ss[i]) =>
   LET x == b1.at[v.ss[i].a].nm IN v.ss[i].name = x \/ v.ss[i].name \in Fetch(b1.al, x, {})
Segmented == /\ \A o \in {1, 2, 3, 4, 5} : Offset(b1, Vaddr(b1, o)) = o
             /\ \A o \in {0, 1, 2, 3} : Offset(bk, Vaddr(bk, o)) = o /\ Vaddr(bk, o) = Vaddr(b1, o + 1)
FoundIsSampled == \A S \in SUBSET {1, 3, 4} : Sampled(b1, NewProfile("none"), S) \subseteq MaySample(b1, NewProfile("none"), S)

(* ---- runs ---- functions f, its part fc, and g, of one segment *)
Bin3 == NewBinary(<<Sy("f", 1, 2, TRUE, ""), Sy("fc", 4, 2, TRUE, "cold"), Sy("g", 6, 1, TRUE, "")>>,
                  <<[load |-> TRUE, exec |-> TRUE, off |-> 0, va |-> 0]>>, << >>, FALSE)
Orig3(nm) == IF nm = "fc" THEN "f" ELSE nm
Fr(fn, l) == [fn |-> fn, f |-> "", d |-> "", s |-> 10, l |-> 10 + l, x |-> 0]
StackSet == {<< >>, <<Fr("f", 1)>>, <<Fr("i", 2), Fr("f", 1)>>}
Src3 == {[a \in {1, 2, 4, 6} |-> [st |-> (CASE a = 1 -> s[1] [] a = 2 -> s[2] [] a = 4 -> <<Fr("f", 1)>> [] OTHER -> <<Fr("g", 1)>>), dup |-> 1]]
          : s \in StackSet \X StackSet}
Rgs == {<<1, 1>>, <<1, 2>>, <<2, 4>>, <<4, 6>>, <<6, 6>>}
Brs == {<<1, 6>>, <<2, 1>>, <<4, 5>>, <<6, 4>>}
Counts3 == {0, 2, Big}
Pick(S, n) == {T \in SUBSET S : Cardinality(T) <= n}
Runs == UNION {[rg : [R -> Counts3 \ {0}], br : [T -> {Big}], ad : {NoCounts, 1 :> Big, 1 :> 2 @@ 4 :> Big}] : R \in Pick(Rgs, Most), T \in Pick(Brs, Most - 1)}
RunInit == v \in {[q |-> x @@ [ts |-> 1 :> 5 @@ 2 :> 3 @@ 4 :> 1, tot |-> 0, floor |-> 10], src |-> s, lbr |-> l] : x \in Runs, s \in Src3, l \in BOOLEAN}
C(q) == Computed(Bin3, q, v.src, "selected", 0, v.lbr, Orig3)
Ag == Aggregate(Bin3, v.q)
Pass == Passing(Bin3, Ag, 10, Orig3)
(* Every execution of a passing function's instructions with a source counts  *)
(* once, in that function.                                                    *)
Conserved ==
  LET r == C(v.q) IN
  \A s \in Pass : Node(r, Bin3.at[s].nm).t =
    IF v.lbr /\ Ag[s].rg = {} THEN 0
    ELSE LET ex == Executions(Bin3, v.q, Ag, s, v.lbr) IN SumOver({a \in DOMAIN ex : StackAt(v.src, a) # << >>}, LAMBDA a : ex[a])
TogetherOrNot == LET r == C(v.q) IN ("f" \in Names(r)) = ("fc" \in Names(r)) /\ Names(r) = {Bin3.at[s].nm : s \in Pass}
HeadsOk ==
  LET r == C(v.q) IN
  \A s \in Pass : Node(r, Bin3.at[s].nm).h =
    SumOver({k \in DOMAIN v.q.br : k[2] = s /\ \E p \in Pass : k \in Ag[p].br /\ ~(v.lbr /\ Ag[p].rg = {})}, LAMBDA k : v.q.br[k])
(* Two halves of a range in one function are the range.                       *)
SplitRange ==
  <<1, 2>> \in DOMAIN v.q.rg =>
    LET n == v.q.rg[<<1, 2>>]
        rest == [k \in DOMAIN v.q.rg \ {<<1, 2>>} |-> v.q.rg[k]]
        q2 == [v.q EXCEPT !.rg = Inc(Inc(rest, <<1, 1>>, n), <<2, 2>>, n)]
    IN C(q2) = C(v.q)
FirstTimes == LET r == C(v.q) IN "f" \in Names(r) => TimeOf(r, "f") = 3 /\ TimeOf(r, "fc") = 1 /\
                 TimeOf(ElideSeq(r, <<<<"fc", "f">>>>), "f") = 1
MissesKept ==
  LET r == Misses(Bin3, v.q, v.src, "selected", 0)
      calls(x) == LET cs == CallsOf(x) IN SumSeq(cs, LAMBDA g : g[2])
  IN /\ SumOver(Names(r), LAMBDA nm : calls(Node(r, nm))) =
        SumOver({o \in DOMAIN v.q.ad : StackAt(v.src, o) # << >>}, LAMBDA o : v.q.ad[o])
     /\ Names(r) = Emitted(r)
=============================================================================
