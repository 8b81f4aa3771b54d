--------------------------------- MODULE Prof --------------------------------
(* Function profiles: trees of counts by inline stack, sets of named trees,   *)
(* and every operation autofdo offers on them.                                *)
(*                                                                            *)
(* A node (a function or an inlined instance of one):                         *)
(*   t total, h entries, f/d file and directory,                              *)
(*   p: <<line offset, discriminator>> -> [n count, i instructions, tg calls] *)
(*   c: <<line offset, discriminator, callee>> -> node                        *)
(* A profile r: names r.m -> identity, identities r.n -> node (two names of   *)
(* one function share an identity), aliases r.al, output threshold r.thr,     *)
(* suffix policy r.pol, first execution of functions r.ts (identity -> time,  *)
(* if known).                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Counters

NewNode == [t |-> 0, h |-> 0, f |-> "", d |-> "", p |-> NoCounts, c |-> NoCounts]
Loc(k) == <<k[1], k[2]>>
NoPos == [n |-> 0, i |-> 0, tg |-> NoCounts]
Fetch(b, k, dflt) == IF k \in DOMAIN b THEN b[k] ELSE dflt
Drop(b, k) == [x \in DOMAIN b \ {k} |-> b[x]]
Only(b, S) == [x \in DOMAIN b \cap S |-> b[x]]

NewProfile(pol) == [m |-> NoCounts, n |-> NoCounts, al |-> NoCounts, ts |-> NoCounts, next |-> 1, thr |-> 0, pol |-> pol]
Names(r) == DOMAIN r.m
Node(r, nm) == r.n[r.m[nm]]
SetNode(r, nm, x) == [r EXCEPT !.n[r.m[nm]] = x]
AddSym(r, nm) ==
  IF nm \in Names(r) THEN r
  ELSE LET all == {nm} \cup Fetch(r.al, nm, {})
       IN [r EXCEPT !.m = [x \in DOMAIN @ \cup all |-> IF x \in all THEN r.next ELSE @[x]],
                    !.n = Put(@, r.next, NewNode), !.next = @ + 1]

(* ---- adding samples ---- a stack is innermost first; a frame has the       *)
(* function fn, its first line s, the line l, a discriminator x, file, dir.   *)
Invalid(fr) == fr.s = 0 \/ fr.l = 0
Off(fr) == <<fr.l - fr.s, fr.x>>
Leaf(node, a) ==
  LET q == Fetch(node.p, a.off, NoPos) IN
  CASE a.k = "none" -> node
    [] a.k = "sum" -> [node EXCEPT !.p = Put(@, a.off, [q EXCEPT !.n = @ + a.n, !.i = @ + a.i])]
    [] a.k = "max" -> [node EXCEPT !.p = Put(@, a.off, [q EXCEPT !.n = Max2(@, a.n), !.i = @ + a.i])]
    [] a.k = "call" -> [node EXCEPT !.p = Put(@, a.off, [q EXCEPT !.tg = Inc(@, a.to, a.n)])]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(node, st, i, cnt, strict, a) ==
  LET x == [node EXCEPT !.t = @ + cnt] IN
  IF i = 1 \/ (strict /\ Invalid(st[i])) THEN Leaf(x, a)
  ELSE LET k == Off(st[i]) \o <<st[i - 1].fn>>
           sub == Fetch(node.c, k, [NewNode EXCEPT !.f = st[i - 1].f, !.d = st[i - 1].d])
       IN [x EXCEPT !.c = Put(@, k, Walk(sub, st, i - 1, cnt, strict, a))]
Located(node, fr) == IF node.f = "" /\ fr.f # "" THEN [node EXCEPT !.f = fr.f, !.d = fr.d] ELSE node
NoAct == [k |-> "none"]
Add(node, st, cnt, inst, strict) ==
  IF st = << >> THEN node
  ELSE Walk(Located(node, Last(st)), st, Len(st), cnt, strict,
            IF strict /\ Invalid(st[1]) THEN NoAct
            ELSE [k |-> IF strict THEN "max" ELSE "sum", off |-> Off(st[1]), n |-> cnt, i |-> inst])
AddCall(node, st, to, cnt, strict) ==
  IF st = << >> THEN node
  ELSE Walk(Located(node, Last(st)), st, Len(st), 0, strict,
            IF strict /\ Invalid(st[1]) THEN NoAct ELSE [k |-> "call", off |-> Off(st[1]), n |-> cnt, to |-> to])

(* ---- merging ---- *)
AddPos(a, b) == [n |-> a.n + b.n, i |-> a.i + b.i, tg |-> Plus(a.tg, b.tg)]
AddBody(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> AddPos(Fetch(a, k, NoPos), Fetch(b, k, NoPos))]
RECURSIVE MergeNode(_, _)
MergeNode(a, b) ==
  [t |-> a.t + b.t, h |-> a.h + b.h,
   f |-> IF a.f = "" THEN b.f ELSE a.f, d |-> IF a.f = "" THEN b.d ELSE a.d,
   p |-> AddBody(a.p, b.p),
   c |-> [k \in DOMAIN a.c \cup DOMAIN b.c |-> MergeNode(Fetch(a.c, k, NewNode), Fetch(b.c, k, NewNode))]]
MergeInto(r, nm, x) == LET s == AddSym(r, nm) IN SetNode(s, nm, MergeNode(Node(s, nm), x))
RECURSIVE MergeAll(_, _)
MergeAll(r, parts) == IF parts = << >> THEN r ELSE MergeAll(MergeInto(r, parts[1][1], parts[1][2]), Tail(parts))

(* ---- names ---- a name is its parts between dots. *)
LastPart(parts, w, tailed) ==
  LET s == {i \in 2..Len(parts) : parts[i] = w /\ (tailed => i < Len(parts))} IN IF s = {} THEN 0 ELSE Max(s)
CutParts(parts, i, n) == IF i = 0 THEN parts ELSE SubSeq(parts, 1, i - 1) \o SubSeq(parts, i + n, Len(parts))
Base(parts, pol) ==
  CASE pol = "none" -> parts
    [] pol = "all" -> IF Len(parts) > 1 /\ parts[1] = "" THEN parts ELSE <<parts[1]>>
    [] pol = "selected" ->
         LET a == CutParts(parts, LastPart(parts, "cold", FALSE), 1)
             b == CutParts(a, LastPart(a, "llvm", TRUE), 2)
         IN CutParts(b, LastPart(b, "__part", TRUE), 2)

(* A function keeps the time it first ran. *)
Earlier(a, b) == IF a = 0 \/ b = 0 THEN a + b ELSE Min2(a, b)
TimeOf(r, nm) == Fetch(r.ts, r.m[nm], 0)
RanAt(r, nm, when) == IF when = 0 THEN r ELSE [r EXCEPT !.ts = Put(@, r.m[nm], Earlier(Fetch(@, r.m[nm], 0), when))]

(* Merging one variant nm into its base name o. *)
ElideOne(r, nm, o) ==
  LET tok == r.m[nm]
      m1 == Drop(r.m, nm)
      fresh == IF o \in DOMAIN m1 THEN m1[o] = tok ELSE TRUE
      dst == IF fresh THEN r.next ELSE m1[o]
      x == MergeNode(IF fresh THEN NewNode ELSE r.n[dst], r.n[tok])
  IN [r EXCEPT !.m = [y \in DOMAIN m1 \cup {o} |-> IF y = o \/ m1[y] = tok THEN dst ELSE m1[y]],
               !.n = Drop(Put(@, dst, x), tok), !.next = @ + 1,
               !.ts = LET w == Earlier(IF fresh THEN 0 ELSE Fetch(@, dst, 0), Fetch(@, tok, 0))
                      IN IF w = 0 THEN Drop(@, tok) ELSE Drop(Put(@, dst, w), tok)]
RECURSIVE ElideSeq(_, _)
ElideSeq(r, s) == IF s = << >> THEN r ELSE ElideSeq(ElideOne(r, s[1][1], s[1][2]), Tail(s))

(* ---- emission ---- *)
Emitted(r) == {nm \in Names(r) : Node(r, nm).t > r.thr}

(* ---- GCC format ---- a file is name -> [h, file, node]. Positions keep 16  *)
(* bits of line and discriminator; totals, entries of inlined instances and   *)
(* instances without positions are not stored.                                *)
Line16(l) == l % 65536
RECURSIVE HasBody(_)
HasBody(x) == DOMAIN x.p # {} \/ \E k \in DOMAIN x.c : HasBody(x.c[k])
RECURSIVE BodyTotal(_)
BodyTotal(x) == Total([k \in DOMAIN x.p |-> x.p[k].n]) + Total([k \in DOMAIN x.c |-> BodyTotal(x.c[k])])
(* Tables: file, functions to file names; ren, names the format renames; tgt, *)
(* the names calls are recorded under.                                        *)
Apply(tbl, x) == Fetch(tbl, x, x)
RECURSIVE AsRead(_, _, _, _, _)
AsRead(x, ren, tgt, file, nm) ==
  [t |-> BodyTotal(x), h |-> 0, f |-> Fetch(file, nm, ""), d |-> "",
   p |-> [k \in {<<Line16(q[1]), q[2]>> : q \in DOMAIN x.p} |->
           LET v == x.p[CHOOSE q \in DOMAIN x.p : <<Line16(q[1]), q[2]>> = k]
           IN [n |-> v.n, i |-> 1, tg |-> FromPairs(SetToSeq({<<Apply(tgt, Apply(ren, g)), v.tg[g], g>> : g \in DOMAIN v.tg}))]],
   c |-> LET live == {q \in DOMAIN x.c : HasBody(x.c[q])}
             key(q) == <<Line16(q[1]), q[2], Apply(ren, q[3])>>
         IN [k \in {key(q) : q \in live} |->
              LET qs == SetToSeq({q \in live : key(q) = k})
              IN FoldLeft(LAMBDA acc, q : MergeNode(acc, AsRead(x.c[q], ren, tgt, file, q[3])), NewNode, qs)]]

(* ---- LLVM format ---- *)
RECURSIVE AsLlvm(_, _)
AsLlvm(x, top) ==
  [t |-> x.t, h |-> IF top THEN x.h ELSE 0,
   p |-> [k \in {<<Line16(q[1]), q[2]>> : q \in DOMAIN x.p} |->
           LET v == x.p[CHOOSE q \in DOMAIN x.p : <<Line16(q[1]), q[2]>> = k] IN [n |-> v.n, tg |-> v.tg]],
   c |-> LET key(q) == <<Line16(q[1]), q[2], q[3]>>
         IN [k \in {key(q) : q \in DOMAIN x.c} |-> AsLlvm(x.c[CHOOSE q \in DOMAIN x.c : key(q) = k], FALSE)]]
(* y is x with at most inst callees inlined and targets called at a location, *)
(* hottest kept; 0 for no limit.                                              *)
AtMost(n, max) == IF max <= 0 THEN n ELSE Min2(n, max)
RECURSIVE LlvmCut(_, _, _, _)
LlvmCut(x, y, inst, tgs) ==
  LET at(c, k) == {q \in DOMAIN c : q[1] = k[1] /\ q[2] = k[2]}
      gone == SumOver(DOMAIN x.c \ DOMAIN y.c, LAMBDA k : x.c[k].t)
              + SumOver(DOMAIN y.c \cap DOMAIN x.c, LAMBDA k : x.c[k].t - y.c[k].t)
  IN /\ DOMAIN y.c \subseteq DOMAIN x.c /\ DOMAIN y.p = DOMAIN x.p
     /\ \A k \in DOMAIN x.c : Cardinality(at(y.c, k)) = AtMost(Cardinality(at(x.c, k)), inst)
     /\ \A k \in DOMAIN y.c, g \in DOMAIN x.c \ DOMAIN y.c : (k[1] = g[1] /\ k[2] = g[2]) => x.c[k].t >= x.c[g].t
     /\ \A k \in DOMAIN y.c : LlvmCut(x.c[k], y.c[k], inst, tgs)
     /\ \A k \in DOMAIN x.p :
          LET a == x.p[k].tg
              b == y.p[k].tg
          IN /\ y.p[k].n = x.p[k].n /\ DOMAIN b \subseteq DOMAIN a
             /\ Cardinality(DOMAIN b) = AtMost(Cardinality(DOMAIN a), tgs)
             /\ \A g \in DOMAIN b : b[g] = a[g] /\ \A u \in DOMAIN a \ DOMAIN b : a[g] >= a[u]
     /\ y.h = x.h /\ y.t = x.t - Min2(gone, x.t)
(* What reading such a profile adds to the function.                          *)
RECURSIVE FromLlvm(_, _)
FromLlvm(y, tgt) ==
  LET live == {k \in DOMAIN y.c : HasBody(y.c[k])}
  IN [t |-> BodyTotal(y), h |-> y.h, f |-> "", d |-> "",
      p |-> [k \in DOMAIN y.p |-> [n |-> y.p[k].n, i |-> 1,
               tg |-> FromPairs(SetToSeq({<<Apply(tgt, g), y.p[k].tg[g], g>> : g \in DOMAIN y.p[k].tg}))]],
      c |-> [k \in live |-> [FromLlvm(y.c[k], tgt) EXCEPT !.h = 0]]]
ReadLlvmTop(y, tgt) ==
  LET x == FromLlvm(y, tgt) IN IF x.t = 0 THEN [x EXCEPT !.t = y.t] ELSE x

(* ---- inclusive counts ---- *)
RECURSIVE CallsOf(_)
CallsOf(x) == FoldSet(LAMBDA k, acc : acc \o FoldSet(LAMBDA g, a2 : Append(a2, <<g, x.p[k].tg[g]>>), << >>, DOMAIN x.p[k].tg),
                      << >>, DOMAIN x.p)
              \o FoldSet(LAMBDA k, acc : acc \o CallsOf(x.c[k]), << >>, DOMAIN x.c)
Callees(r, id) == {r.m[CallsOf(r.n[id])[i][1]] : i \in {j \in DOMAIN CallsOf(r.n[id]) : CallsOf(r.n[id])[j][1] \in Names(r)}}
Ids(r) == {r.m[nm] : nm \in Names(r)}
RECURSIVE Closure(_, _)
Closure(e, S) == LET T == S \cup UNION {e[x] : x \in S} IN IF T = S THEN S ELSE Closure(e, T)
CallEdges(r) == [id \in Ids(r) |-> Callees(r, id)]
Cycle(e, id) == {x \in DOMAIN e : x = id \/ (x \in Closure(e, e[id]) /\ id \in Closure(e, e[x]))}
RECURSIVE InclOfCalls(_, _, _, _)
RECURSIVE InclCycle(_, _, _)
InclOfCalls(r, e, calls, own) ==
  SumSeq(calls, LAMBDA g :
    IF g[1] \notin Names(r) THEN 0
    ELSE LET id == r.m[g[1]] IN
         IF id \in own THEN 0
         ELSE (InclCycle(r, e, Cycle(e, id)) * g[2]) \div Max2(r.n[id].h, 1))
InclCycle(r, e, S) == SumOver(S, LAMBDA id : r.n[id].t + InclOfCalls(r, e, CallsOf(r.n[id]), S))
InclNode(r, e, S, x) == x.t + InclOfCalls(r, e, CallsOf(x), S)

(* ---- trimming ---- y is x with at most max callees inlined at a location, *)
(* hottest kept.                                                              *)
At(c, loc) == {k \in DOMAIN c : Loc(k) = loc}
RECURSIVE Throttled(_, _, _)
Throttled(x, y, max) ==
  /\ DOMAIN y.c \subseteq DOMAIN x.c
  /\ \A loc \in {Loc(k) : k \in DOMAIN x.c} :
       /\ Cardinality(At(y.c, loc)) = Min2(max, Cardinality(At(x.c, loc)))
       /\ \A k \in At(y.c, loc), g \in At(x.c, loc) \ At(y.c, loc) : x.c[k].t >= x.c[g].t
  /\ \A k \in DOMAIN y.c : Throttled(x.c[k], y.c[k], max)
  /\ LET gone == SumOver(DOMAIN x.c \ DOMAIN y.c, LAMBDA k : x.c[k].t)
                 + SumOver(DOMAIN y.c, LAMBDA k : x.c[k].t - y.c[k].t)
     IN y = [x EXCEPT !.t = @ - Min2(gone, @), !.c = y.c]
RECURSIVE CallsTrimmed(_, _, _)
CallsTrimmed(x, y, max) ==
  /\ DOMAIN y.p = DOMAIN x.p /\ DOMAIN y.c = DOMAIN x.c
  /\ \A k \in DOMAIN x.p :
       LET a == x.p[k].tg
           b == y.p[k].tg
       IN /\ y.p[k] = [x.p[k] EXCEPT !.tg = b] /\ DOMAIN b \subseteq DOMAIN a
          /\ Cardinality(DOMAIN b) = Min2(max, Cardinality(DOMAIN a))
          /\ \A g \in DOMAIN b : b[g] = a[g] /\ \A u \in DOMAIN a \ DOMAIN b : a[g] >= a[u]
  /\ \A k \in DOMAIN x.c : CallsTrimmed(x.c[k], y.c[k], max)
  /\ y = [x EXCEPT !.p = y.p, !.c = y.c]
RECURSIVE Scaled(_, _, _)
ScaleN(n, a, b) == (2 * n * a + b) \div (2 * b)   \* nearest, halves up
Scaled(x, a, b) ==
  [x EXCEPT !.t = ScaleN(@, a, b), !.h = ScaleN(@, a, b),
            !.p = [k \in DOMAIN @ |-> [@[k] EXCEPT !.n = ScaleN(@, a, b), !.tg = [g \in DOMAIN @ |-> ScaleN(@[g], a, b)]]],
            !.c = [k \in DOMAIN @ |-> Scaled(@[k], a, b)]]
Removed(r, S) == [r EXCEPT !.n = [id \in DOMAIN @ |-> IF \E nm \in S \cap Names(r) : r.m[nm] = id
                                                      THEN [@[id] EXCEPT !.t = 0, !.h = 0] ELSE @[id]]]

(* ---- flattening ---- rank orders names; offsets compare as unsigned. *)
LineLess(a, b) == IF (a >= 0) = (b >= 0) THEN a < b ELSE a >= 0
OffLess(a, b) == IF a[1] = b[1] THEN a[2] < b[2] ELSE LineLess(a[1], b[1])
CallLess(a, b, rank) == IF Loc(a) = Loc(b) THEN rank[a[3]] < rank[b[3]] ELSE OffLess(Loc(a), Loc(b))
RECURSIVE Entered(_, _)
(* The node with its number of entries estimated from its first position.     *)
Entered(x, rank) ==
  IF x.h # 0 THEN x
  ELSE LET ps == DOMAIN x.p
           p1 == CHOOSE k \in ps : \A j \in ps : j = k \/ OffLess(k, j)
           cs == DOMAIN x.c
           c1 == CHOOSE k \in cs : \A j \in cs : j = k \/ CallLess(k, j, rank)
           sub == Entered(x.c[c1], rank)
       IN IF cs = {} THEN IF ps = {} THEN x ELSE [x EXCEPT !.h = x.p[p1].n]
          ELSE IF ps # {} /\ ~OffLess(Loc(c1), p1) THEN [x EXCEPT !.h = x.p[p1].n]
          ELSE [x EXCEPT !.h = sub.h, !.c[c1] = sub]
(* An inlined call becomes an ordinary one.                                   *)
AsCall(p, k, h) ==
  LET q == Fetch(p, Loc(k), NoPos)
  IN Put(p, Loc(k), [q EXCEPT !.n = Max2(@, h), !.tg = Inc(@, k[3], h)])
AsCalls(p, c, S) == FoldSet(LAMBDA k, acc : AsCall(acc, k, c[k].h), p, S)
BodyOnly(x) == [NewNode EXCEPT !.t = Total([k \in DOMAIN x.p |-> x.p[k].n]), !.h = x.h, !.p = x.p]
RECURSIVE FlatParts(_, _, _, _)
FlatParts(nm, x, nested, rank) ==
  LET c == [k \in DOMAIN x.c |-> Entered(x.c[k], rank)]
      own == BodyOnly([x EXCEPT !.p = AsCalls(@, c, DOMAIN c)])
  IN <<<<nm, own>>>> \o (IF nested THEN FoldSet(LAMBDA k, acc : acc \o FlatParts(k[3], c[k], nested, rank), << >>, DOMAIN c)
                         ELSE << >>)
RECURSIVE FlatAll(_, _, _, _, _, _)
FlatAll(dst, src, names, sel, thr, rank) ==
  IF names = {} THEN dst
  ELSE LET nm == CHOOSE x \in names : TRUE
           x == Node(src, nm)
           d2 == IF sel /\ x.t >= thr THEN MergeInto(dst, nm, x)
                 ELSE MergeAll(dst, FlatParts(nm, x, ~sel, rank))
       IN FlatAll(d2, src, names \ {nm}, sel, thr, rank)
RECURSIVE Hybrid(_, _)
(* own: what stays in the tree; out: stand-alone functions; seen, cut: call   *)
(* sites met and cut.                                                         *)
Hybrid(x, thr) ==
  LET sub == [k \in DOMAIN x.c |-> Hybrid(x.c[k], thr)]
      cold == {k \in DOMAIN x.c : x.c[k].t <= thr}
  IN [own |-> [x EXCEPT !.p = AsCalls(@, x.c, cold), !.c = [k \in DOMAIN x.c \ cold |-> sub[k].own]],
      out |-> FoldSet(LAMBDA k, acc : acc \o sub[k].out \o (IF k \in cold THEN <<<<k[3], sub[k].own>>>> ELSE << >>), << >>, DOMAIN x.c),
      seen |-> Cardinality(DOMAIN x.c) + SumOver(DOMAIN x.c, LAMBDA k : sub[k].seen),
      cut |-> Cardinality(cold) + SumOver(DOMAIN x.c, LAMBDA k : sub[k].cut)]
RECURSIVE HybridAll(_, _, _, _)
HybridAll(dst, src, names, thr) ==
  IF names = {} THEN dst
  ELSE LET nm == CHOOSE x \in names : TRUE
           hy == Hybrid(Node(src, nm), thr)
       IN HybridAll(MergeAll(MergeInto(dst, nm, hy.own), hy.out), src, names \ {nm}, thr)

(* Limiting nesting to max levels: deeper instances become functions. Result: *)
(* the node, the functions split off, the change of its total.                *)
RECURSIVE Limit(_, _, _, _)
Limit(x, depth, max, rank) ==
  IF depth = max
  THEN LET c == [k \in DOMAIN x.c |-> LET s == Limit(x.c[k], 1, max, rank)
                                      IN [node |-> Entered(s.node, rank), out |-> s.out]]
           (* a call at a location counts no less than each of its targets *)
           p == FoldSet(LAMBDA k, acc : LET a == AsCall(acc, k, c[k].node.h)
                                        IN [a EXCEPT ![Loc(k)] = [@ EXCEPT !.n = Max2(@, a[Loc(k)].tg[k[3]])]], x.p, DOMAIN c)
           diff == Total([k \in DOMAIN p |-> p[k].n]) - Total([k \in DOMAIN x.p |-> x.p[k].n])
                   - SumOver(DOMAIN x.c, LAMBDA k : x.c[k].t)
       IN [node |-> [x EXCEPT !.t = @ + diff, !.p = p, !.c = NoCounts], diff |-> diff,
           out |-> FoldSet(LAMBDA k, acc : acc \o c[k].out \o <<<<k[3], c[k].node>>>>, << >>, DOMAIN c)]
  ELSE LET s == [k \in DOMAIN x.c |-> Limit(x.c[k], depth + 1, max, rank)]
           diff == SumOver(DOMAIN s, LAMBDA k : s[k].diff)
       IN [node |-> [x EXCEPT !.t = @ + diff, !.c = [k \in DOMAIN s |-> s[k].node]], diff |-> diff,
           out |-> FoldSet(LAMBDA k, acc : acc \o s[k].out, << >>, DOMAIN s)]
RECURSIVE LimitAll(_, _, _, _, _)
(* Functions in the order of their names, those split off on the way too.     *)
LimitAll(r, at, max, num, rank) ==
  LET todo == {nm \in Names(r) : rank[nm] > at}
      nm == CHOOSE x \in todo : \A y \in todo : rank[x] <= rank[y]
      s == Limit(Node(r, nm), 1, max, rank)
  IN IF todo = {} THEN [r |-> r, num |-> num]
     ELSE LimitAll(MergeAll(SetNode(r, nm, s.node), s.out), rank[nm], max, num + (IF s.diff # 0 THEN 1 ELSE 0), rank)

(* ---- printing ---- *)
(* The lines a profile is printed as: functions by total, then name; in each  *)
(* its positions, then its inlined calls with what is in them.                *)
LocLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(S, Less(_, _)) == SetToSortSeq(S, Less)
RECURSIVE Body(_, _, _)
Body(x, ind, rank) ==
  LET ps == Sorted(DOMAIN x.p, LocLess)
      cs == Sorted(DOMAIN x.c, LAMBDA a, b : IF Loc(a) = Loc(b) THEN rank[a[3]] < rank[b[3]] ELSE LocLess(a, b))
  IN [i \in DOMAIN ps |-> <<"P", ind + 2, ps[i][1], ps[i][2], x.p[ps[i]].n, x.p[ps[i]].tg>>]
     \o FoldLeft(LAMBDA acc, k : acc \o <<<<"C", ind + 2, k[1], k[2], k[3], x.c[k].t>>>> \o Body(x.c[k], ind + 2, rank), << >>, cs)
Printout(r, rank) ==
  LET fs == Sorted({nm \in Names(r) : Node(r, nm).t > 0},
                   LAMBDA a, b : Node(r, a).t > Node(r, b).t \/ (Node(r, a).t = Node(r, b).t /\ rank[a] < rank[b]))
  IN FoldLeft(LAMBDA acc, nm : acc \o <<<<"F", nm, Node(r, nm).t, Node(r, nm).h, Fetch(r.ts, r.m[nm], 0)>>>>
                                   \o Body(Node(r, nm), 0, rank), << >>, fs)

(* ---- summaries ---- *)
RECURSIVE Counts(_)
(* <<count, instructions>> of every position of a tree.                       *)
Counts(x) == FoldSet(LAMBDA k, acc : Append(acc, <<x.p[k].n, x.p[k].i>>), << >>, DOMAIN x.p)
             \o FoldSet(LAMBDA k, acc : acc \o Counts(x.c[k]), << >>, DOMAIN x.c)
AllCounts(r, ids) == FoldSet(LAMBDA id, acc : acc \o Counts(r.n[id]), << >>, ids)
Hotness(cs) == FoldLeft(LAMBDA acc, q : Inc(acc, q[1], q[2]), NoCounts, cs)   \* count -> instructions
(* For a share: the most instructions, hottest first, that do not exceed      *)
(* target, and the count of the next.                                         *)
RECURSIVE Take(_, _, _, _)
Take(h, target, k, den) ==   \* target, counts: count * den <= target
  LET cs == DOMAIN h
      c == Max(cs)
      fit == IF c = 0 THEN h[c] ELSE Min2(h[c], target \div (c * den))
  IN IF cs = {} THEN [num |-> k, min |-> -1]
     ELSE IF fit < h[c] THEN [num |-> k + fit, min |-> c]
     ELSE Take(Drop(h, c), target - c * den * h[c], k + h[c], den)
(* For a cut-off share of the total: the hottest positions, whole classes of  *)
(* equal counts, that reach it.                                               *)
RECURSIVE Reach(_, _, _, _, _, _)
Reach(f, sum, min, num, want, gap) ==
  IF want - sum * 1000 < gap \/ DOMAIN f = {} THEN [min |-> min, num |-> num]
  ELSE LET c == Max(DOMAIN f) IN Reach(Drop(f, c), sum + c * f[c], c, num + f[c], want, gap)

(* Overlap as the fraction num / den.                                         *)
OverlapOf(a, b) ==
  LET sa == SumOver(Names(a), LAMBDA nm : Node(a, nm).t)
      sb == SumOver(Names(b), LAMBDA nm : Node(b, nm).t)
      ta(nm) == IF nm \in Names(a) THEN Node(a, nm).t ELSE 0
      tb(nm) == IF nm \in Names(b) THEN Node(b, nm).t ELSE 0
  IN IF sa = 0 \/ sb = 0 THEN [num |-> 0, den |-> 1]
     ELSE [num |-> SumOver(Names(a) \cup Names(b), LAMBDA nm : Min2(ta(nm) * sb, tb(nm) * sa)), den |-> sa * sb]
=============================================================================
