-------------------------------- MODULE ProfMC -------------------------------
(* Two profiles a and b collected from samples in every possible way.         *)
EXTENDS Prof
CONSTANTS Fns,      \* function names
          Offs,     \* positions <<line, discriminator>>
          Cnts,     \* counts
          Depth,    \* most inlined frames
          Most,     \* most samples
          Both,     \* whether b is collected too
          Kinds     \* what is added: "src", "call", "entry"
Offs1 == {<<1, 0>>}
Offs2 == {<<1, 0>>, <<2, 1>>}
Offs3 == {<<0, 0>>, <<1, 0>>, <<70000, 2>>}
VARIABLES a, b, log     \* log: what was added, <<"a" or "b", kind, stack, n, to>>
mcv == <<a, b, log>>
Fr(fn, o, bad) == [fn |-> fn, f |-> "", d |-> "", s |-> IF bad THEN 0 ELSE 10, l |-> 10 + o[1], x |-> o[2]]
Stacks == UNION {{[i \in 1..d |-> Fr(g[i], o[i], FALSE)] : g \in [1..d -> Fns], o \in [1..d -> Offs]} : d \in 1..(Depth + 1)}
Plain(st) == [i \in DOMAIN st |-> <<st[i].fn, st[i].l - st[i].s, st[i].x>>]
New == NewProfile("none")
MCInit == a = New /\ b = New /\ log = << >>
Top(st) == Last(st).fn
Ad(r, st, n) == LET s == AddSym(r, Top(st)) IN SetNode(s, Top(st), Add(Node(s, Top(st)), st, n, 1, TRUE))
Ca(r, st, to, n) == LET s == AddSym(r, Top(st)) IN SetNode(s, Top(st), AddCall(Node(s, Top(st)), st, to, n, TRUE))
En(r, nm, h) == LET s == AddSym(r, nm) IN SetNode(s, nm, [Node(s, nm) EXCEPT !.h = @ + h])
Sample(st, n) ==
  \/ a' = Ad(a, st, n) /\ b' = b /\ log' = Append(log, <<"a", "src", Plain(st), n, "">>)
  \/ Both /\ b' = Ad(b, st, n) /\ a' = a /\ log' = Append(log, <<"b", "src", Plain(st), n, "">>)
Call(st, to, n) ==
  \/ a' = Ca(a, st, to, n) /\ b' = b /\ log' = Append(log, <<"a", "call", Plain(st), n, to>>)
  \/ Both /\ b' = Ca(b, st, to, n) /\ a' = a /\ log' = Append(log, <<"b", "call", Plain(st), n, to>>)
Entry2(nm, n) ==
  \/ a' = En(a, nm, n) /\ b' = b /\ log' = Append(log, <<"a", "entry", <<<<nm, 0, 0>>>>, n, "">>)
  \/ Both /\ b' = En(b, nm, n) /\ a' = a /\ log' = Append(log, <<"b", "entry", <<<<nm, 0, 0>>>>, n, "">>)
MCNext == /\ Len(log) < Most
          /\ \/ "src" \in Kinds /\ \E st \in Stacks, n \in Cnts : Sample(st, n)
             \/ "call" \in Kinds /\ \E st \in Stacks, n \in Cnts, to \in Fns : Call(st, to, n)
             \/ "entry" \in Kinds /\ \E nm \in Fns, n \in Cnts : Entry2(nm, n)
View == <<a, b>>
MCSpec == MCInit /\ [][MCNext]_mcv

(* ---- P01: totals and positions are those of the samples ---- *)
Of(p, kind) == SelectSeq(log, LAMBDA e : e[1] = p /\ e[2] = kind)
(* the samples that pass through a node: the frames from the outside in *)
Path(pl) == [i \in 1..Len(pl) |-> pl[Len(pl) + 1 - i]]
(* keys is the chain of <<line, disc, callee>> from function top *)
Through(pl, top, keys) ==
  LET q == Path(pl)
  IN /\ q[1][1] = top /\ Len(q) > Len(keys)
     /\ \A i \in DOMAIN keys : <<q[i][2], q[i][3], q[i + 1][1]>> = keys[i]
RECURSIVE NodeAt(_, _)
NodeAt(x, keys) == IF keys = << >> THEN x ELSE NodeAt(x.c[keys[1]], Tail(keys))
RECURSIVE Chains(_)
Chains(x) == {<< >>} \cup UNION {{<<k>> \o s : s \in Chains(x.c[k])} : k \in DOMAIN x.c}
MaxOr0(S) == IF S = {} THEN 0 ELSE Max(S)
Ledger(p, r) ==
  \A nm \in Names(r) : \A ks \in Chains(Node(r, nm)) :
    LET x == NodeAt(Node(r, nm), ks)
        s == Of(p, "src")
        c == Of(p, "call")
        thru == {i \in DOMAIN s : Through(s[i][3], nm, ks)}
        here(pl, k) == Through(pl, nm, ks) /\ Len(pl) = Len(ks) + 1 /\ <<pl[1][2], pl[1][3]>> = k
    IN /\ x.t = SumOver(thru, LAMBDA i : s[i][4])
       /\ DOMAIN x.p = {<<s[i][3][1][2], s[i][3][1][3]>> : i \in {j \in DOMAIN s : Through(s[j][3], nm, ks) /\ Len(s[j][3]) = Len(ks) + 1}}
                       \cup {<<c[i][3][1][2], c[i][3][1][3]>> : i \in {j \in DOMAIN c : Through(c[j][3], nm, ks) /\ Len(c[j][3]) = Len(ks) + 1}}
       /\ \A k \in DOMAIN x.p :
            /\ x.p[k].n = MaxOr0({s[i][4] : i \in {j \in DOMAIN s : here(s[j][3], k)}})
            /\ x.p[k].tg = FromPairs([i \in DOMAIN SelectSeq(c, LAMBDA e : here(e[3], k)) |->
                              <<SelectSeq(c, LAMBDA e : here(e[3], k))[i][5], SelectSeq(c, LAMBDA e : here(e[3], k))[i][4]>>])
SamplesInTrees == Ledger("a", a) /\ Ledger("b", b)

(* ---- P02 ---- *)
ByName(r) == [nm \in Names(r) |-> Node(r, nm)]
AsParts(r) == SetToSeq({<<nm, Node(r, nm)>> : nm \in Names(r)})
MergeCommutes == ByName(MergeAll(MergeAll(New, AsParts(a)), AsParts(b))) = ByName(MergeAll(MergeAll(New, AsParts(b)), AsParts(a)))
MergeGroups == LET ab == MergeAll(MergeAll(New, AsParts(a)), AsParts(b))
                   ba == MergeAll(MergeAll(New, AsParts(b)), AsParts(b))
               IN ByName(MergeAll(ab, AsParts(b))) = ByName(MergeAll(MergeAll(New, AsParts(a)), AsParts(ba)))
SumT(r) == SumOver(Names(r), LAMBDA nm : Node(r, nm).t)
MergeKeepsTotals == SumT(MergeAll(a, AsParts(b))) = SumT(a) + SumT(b)
(* What is in a merged position is what is in the two.                        *)
MergePointwise == \A nm \in Names(a) \cap Names(b) :
  LET m == MergeNode(Node(a, nm), Node(b, nm)) IN
  /\ BodyTotal(m) = BodyTotal(Node(a, nm)) + BodyTotal(Node(b, nm))
  /\ \A g \in Fns : SumSeq(CallsOf(m), LAMBDA q : IF q[1] = g THEN q[2] ELSE 0)
                    = SumSeq(CallsOf(Node(a, nm)) \o CallsOf(Node(b, nm)), LAMBDA q : IF q[1] = g THEN q[2] ELSE 0)

(* ---- P03, P04 ---- *)
Id0 == << >>
RECURSIVE CountsKept(_, _)
CountsKept(x, y) ==
  /\ \A k \in DOMAIN x.p : LET k2 == <<Line16(k[1]), k[2]>> IN k2 \in DOMAIN y.p /\ y.p[k2].n = x.p[k].n /\ y.p[k2].tg = x.p[k].tg
  /\ \A k \in DOMAIN x.c : HasBody(x.c[k]) =>
        LET k2 == <<Line16(k[1]), k[2], k[3]>> IN k2 \in DOMAIN y.c /\ CountsKept(x.c[k], y.c[k2])
GccKeepsCounts == \A nm \in Names(a) : LET x == Node(a, nm)
                                           y == AsRead(x, Id0, Id0, Id0, nm)
                                       IN CountsKept(x, y) /\ y.t = BodyTotal(y) /\ BodyTotal(y) = BodyTotal(x)
GccStable == \A nm \in Names(a) : LET y == AsRead(Node(a, nm), Id0, Id0, Id0, nm) IN AsRead(y, Id0, Id0, Id0, nm) = y
LlvmKeepsCounts == \A nm \in Names(a) : LET x == Node(a, nm)
                                            y == FromLlvm(AsLlvm(x, TRUE), Id0)
                                        IN CountsKept(x, y) /\ y.h = x.h /\ y.t = BodyTotal(x)
LlvmStable == \A nm \in Names(a) : LET y == AsLlvm(FromLlvm(AsLlvm(Node(a, nm), TRUE), Id0), TRUE)
                                   IN AsLlvm(FromLlvm(y, Id0), TRUE) = y

(* ---- P05: every function but the first is taken for a variant of it ------ *)
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<< >>} ELSE UNION {{<<x>> \o s : s \in Perms(S \ {x})} : x \in S}
Variants == {nm \in Names(a) : nm # CHOOSE x \in Fns : TRUE}
TheBase == CHOOSE x \in Fns : TRUE
ElidedBy(r, s) == ByName(ElideSeq(r, [i \in DOMAIN s |-> <<s[i], TheBase>>]))
ElisionKeepsAll ==
  LET r == ElideSeq(a, [i \in DOMAIN SetToSeq(Variants) |-> <<SetToSeq(Variants)[i], TheBase>>])
  IN /\ Names(a) # {} => Names(r) = {TheBase}
     /\ SumT(r) = SumT(a) /\ SumOver(Ids(r), LAMBDA id : r.n[id].h) = SumOver(Ids(a), LAMBDA id : a.n[id].h)
     /\ DOMAIN r.n = Ids(r)
ElisionAnyOrder == \A s \in Perms(Variants) : ElidedBy(a, s) = ElidedBy(a, SetToSeq(Variants))

(* ---- P06 ---- *)
InclSound ==
  LET e == CallEdges(a) IN
  \A id \in Ids(a) :
    LET S == Cycle(e, id)
        v == InclCycle(a, e, S)
    IN /\ v >= SumOver(S, LAMBDA x : a.n[x].t)
       /\ \A y \in S : Cycle(e, y) = S /\ InclCycle(a, e, Cycle(e, y)) = v
       /\ (S = {id} /\ e[id] \subseteq {id}) => v = a.n[id].t

(* ---- P07 ---- *)
Rank == [nm \in Fns |-> CHOOSE i \in 1..Cardinality(Fns) : SetToSeq(Fns)[i] = nm]
RECURSIVE DepthOf(_)
DepthOf(x) == IF DOMAIN x.c = {} THEN 0 ELSE 1 + Max({DepthOf(x.c[k]) : k \in DOMAIN x.c})
FlatIsFlat == LET r == FlatAll(New, a, Names(a), FALSE, 0, Rank)
              IN /\ \A nm \in Names(r) : DOMAIN Node(r, nm).c = {}
                 /\ Names(a) \subseteq Names(r)
                 /\ SumT(r) >= SumOver(Names(a), LAMBDA nm : BodyTotal(Node(a, nm)))
SelectiveKeepsHot == \A thr \in Cnts :
  LET r == FlatAll(New, a, Names(a), TRUE, thr, Rank) IN
  \A nm \in Names(a) : IF Node(a, nm).t >= thr THEN Node(r, nm) = Node(a, nm) ELSE DOMAIN Node(r, nm).c = {}
RECURSIVE Instances(_)
Instances(x) == UNION {{x.c[k]} \cup Instances(x.c[k]) : k \in DOMAIN x.c}
HybridKeepsHot == \A thr \in Cnts :
  LET r == HybridAll(New, a, Names(a), thr) IN \A nm \in Names(r) : \A y \in Instances(Node(r, nm)) : y.t > thr
RECURSIVE NoRecursion(_, _)
NoRecursion(x, seen) == \A k \in DOMAIN x.c : k[3] \notin seen /\ NoRecursion(x.c[k], seen \cup {k[3]})
LimitWorks == (\A nm \in Names(a) : NoRecursion(Node(a, nm), {nm})) =>
  \A m \in 1..2 : LET s == LimitAll(a, 0, m, 0, Rank) IN
     /\ \A nm \in Names(s.r) : DepthOf(Node(s.r, nm)) < m
     /\ (\A nm \in Names(a) : DepthOf(Node(a, nm)) < m) => s.r = a /\ s.num = 0
(* any choice of the hottest instances satisfies the trimming relation *)
RECURSIVE OneTrim(_, _)
OneTrim(x, max) ==
  LET keep == {k \in DOMAIN x.c : Cardinality({g \in At(x.c, Loc(k)) : x.c[g].t > x.c[k].t \/ (x.c[g].t = x.c[k].t /\ Rank[g[3]] < Rank[k[3]])}) < max}
      c == [k \in keep |-> OneTrim(x.c[k], max)]
      gone == SumOver(DOMAIN x.c \ keep, LAMBDA k : x.c[k].t) + SumOver(keep, LAMBDA k : x.c[k].t - c[k].t)
  IN [x EXCEPT !.t = @ - Min2(gone, @), !.c = c]
TrimConsistent == \A nm \in Names(a), m \in 0..2 :
  LET x == Node(a, nm)
      y == OneTrim(x, m)
  IN Throttled(x, y, m) /\ y.t <= x.t /\ (y.t = x.t => (\A k \in DOMAIN x.c \ DOMAIN y.c : x.c[k].t = 0))
     /\ Throttled(y, y, m)
ScaleWhole == \A nm \in Names(a) : LET x == Node(a, nm) IN Scaled(x, 1, 1) = x /\ Scaled(Scaled(x, 2, 1), 1, 2) = x

(* ---- P08 ---- *)
Hot(r) == Hotness(AllCounts(r, {id \in Ids(r) : r.n[id].t # 0}))
RECURSIVE TopSum(_, _)
TopSum(h, k) == IF k = 0 \/ DOMAIN h = {} THEN 0
                ELSE LET c == Max(DOMAIN h) IN IF h[c] >= k THEN c * k ELSE c * h[c] + TopSum(Drop(h, c), k - h[c])
WorkingSetDef ==
  LET h == Hot(a)
      tot == SumOver(DOMAIN h, LAMBDA c : c * h[c])
  IN tot > 0 => \A q \in 0..(tot - 1) :
       LET x == Take(h, q, 0, 1) IN /\ TopSum(h, x.num) <= q /\ TopSum(h, x.num + 1) > q
                                    /\ x.min = TopSum(h, x.num + 1) - TopSum(h, x.num)
SummaryDef ==
  LET cs == FoldSet(LAMBDA nm, acc : acc \o Counts(Node(a, nm)), << >>, Names(a))
      f == FoldLeft(LAMBDA acc, q : Inc(acc, q[1], 1), NoCounts, cs)
      tot == SumSeq(cs, LAMBDA q : q[1])
  IN \A q \in 1..tot :
       LET x == Reach(f, 0, 0, 0, q * 1000, 1)
       IN /\ SumSeq(cs, LAMBDA p : IF p[1] >= x.min /\ x.num > 0 THEN p[1] ELSE 0) >= q
          /\ SumSeq(cs, LAMBDA p : IF p[1] > x.min THEN p[1] ELSE 0) < q
          /\ x.num > 0 => x.num = Cardinality({i \in DOMAIN cs : cs[i][1] >= x.min})

(* ---- P09 ---- *)
OverlapLaws ==
  LET o == OverlapOf(a, b)
      p == OverlapOf(b, a)
      s == OverlapOf(a, a)
  IN /\ o.num * p.den = p.num * o.den
     /\ o.num >= 0 /\ o.num <= o.den
     /\ SumT(a) > 0 => s.num = s.den
     /\ SumT(a) * SumT(b) > 0 =>
          (o.num = o.den) = (\A nm \in Fns : LET x == IF nm \in Names(a) THEN Node(a, nm).t ELSE 0
                                                 y == IF nm \in Names(b) THEN Node(b, nm).t ELSE 0
                                             IN x * SumT(b) = y * SumT(a))
     /\ SumT(a) * SumT(b) > 0 =>
          (o.num = 0) = (\A nm \in Fns : ~(nm \in Names(a) /\ nm \in Names(b) /\ Node(a, nm).t > 0 /\ Node(b, nm).t > 0))
=============================================================================
